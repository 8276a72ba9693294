"""Path-sensitive dataflow over the extracted control-flow graphs.

Abstract values are terms (access-path value numbering).  A loop is analysed by
forgetting everything its body may write and following one arbitrary iteration;
variables that every iteration advances by the same constant are kept as
induction variables.  Callees defined in the repository are followed, library
calls are modelled by their effect on the access paths they receive.  Nothing
is executed and no solver is involved: a branch is only cut when the same
comparison (or one implied by the order of two compared terms) was already
decided on the path.
"""
import heapq
from . import terms as T
from .ir import base
from .terms import c, TRUE, FALSE, NULL, ZERO, ONE


class Budget(Exception):
    pass


class Ev:
    """one event on a path"""
    __slots__ = ('k', 'fn', 'node', 'q', 'n', 'c', 'obj', 'args', 'res', 'loc',
                 'val', 'locks', 'pol', 'x', 'frame', 'argl')

    def __init__(self, k, fn, node, **kw):
        self.k = k
        self.fn = fn
        self.node = node
        for s in ('q', 'n', 'c', 'obj', 'args', 'res', 'loc', 'val', 'locks',
                  'pol', 'x', 'frame', 'argl'):
            setattr(self, s, kw.get(s))

    @property
    def where(self):
        return self.fn.where(self.node)

    def __repr__(self):
        s = '%s@%s' % (self.k, self.where)
        if self.k == 'call':
            s += ' %s.%s(%s)' % (T.show(self.obj) if self.obj else '', self.q,
                                 ', '.join(T.show(a) for a in self.args))
        elif self.k in ('write', 'read'):
            s += ' %s' % T.show(self.loc)
            if self.val is not None:
                s += ' := %s' % T.show(self.val)
        elif self.k == 'cond':
            s += ' %s%s' % ('' if self.pol else 'not ', T.show(self.val))
        elif self.loc is not None:
            s += ' %s' % T.show(self.loc)
        elif self.x is not None:
            s += ' %s' % (self.x,)
        return s


class State:
    __slots__ = ('store', 'env', 'vals', 'trace', 'pc', 'locks', 'ret', 'n',
                 'client')

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.env = dict(self.env)
        s.vals = dict(self.vals)
        s.trace = self.trace
        s.pc = dict(self.pc)
        s.locks = self.locks
        s.ret = self.ret
        s.n = self.n
        s.client = self.client
        return s

    def events(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class Out:
    """end of one path: kind is ret, back, abort or throw"""
    __slots__ = ('kind', 'st', 'val', 'fn', 'x')

    def __init__(self, kind, st, val=None, fn=None, x=None):
        self.kind, self.st, self.val, self.fn, self.x = kind, st, val, fn, x

    def events(self):
        return self.st.events()


SMART = {'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access',
         'std::unique_ptr', 'boost::shared_ptr', 'boost::optional',
         'std::weak_ptr', 'std::__weak_ptr', 'boost::optional_detail::optional_base',
         'std::optional', 'boost::intrusive_ptr', 'boost::scoped_ptr',
         'std::__uniq_ptr_impl'}
PRV = {'lin', 'op', 'vec', 'I', 'ones', 'obj', 'c', 'chk'}   # never addresses
CONT = {'std::vector', 'std::deque', 'std::list', 'std::queue', 'std::map',
        'std::unordered_map', 'std::set', 'std::unordered_set', 'std::array',
        'tbb::detail::d1::concurrent_vector', 'tbb::concurrent_vector',
        'std::multimap', 'std::stack', 'std::forward_list', 'std::priority_queue',
        'tbb::detail::d2::concurrent_vector', 'std::initializer_list',
        'boost::circular_buffer', 'gtsam::FastVector', 'std::multiset',
        'tbb::detail::d1::concurrent_vector_base', 'pcl::PointCloud',
        'std::_Vector_base', 'tbb::detail::d1::concurrent_unordered_map',
        'tbb::detail::d2::concurrent_unordered_map',
        'tbb::detail::d1::concurrent_unordered_base',
        'tbb::detail::d2::concurrent_unordered_base'}
NARROW = {'char', 'unsigned char', 'signed char', 'short', 'unsigned short',
          'uint8_t', 'int8_t', 'uint16_t', 'int16_t'}
MAPS = {'std::map', 'std::unordered_map',
        'tbb::detail::d1::concurrent_unordered_map',
        'tbb::detail::d2::concurrent_unordered_map',
        'tbb::detail::d1::concurrent_unordered_base',
        'tbb::detail::d2::concurrent_unordered_base'}
ITER = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator',
        'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
        'std::_List_iterator', 'std::_List_const_iterator',
        'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
        'std::__detail::_Node_iterator_base', 'std::reverse_iterator',
        'tbb::detail::d1::vector_iterator', 'std::_Bit_iterator',
        'std::_Bit_const_iterator', 'std::_Fwd_list_iterator',
        'tbb::detail::d1::solist_iterator', 'tbb::detail::d2::solist_iterator'}
ATOMIC = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag',
          'boost::atomic', 'boost::atomics::atomic'}
LOCKS = {'std::lock_guard': 'x', 'std::unique_lock': 'x',
         'std::scoped_lock': 'x', 'boost::unique_lock': 'x',
         'boost::lock_guard': 'x', 'boost::shared_lock': 's',
         'boost::upgrade_lock': 'u', 'boost::upgrade_to_unique_lock': 'up',
         'static_map::common::Mutex::Locker': 'x', 'std::shared_lock': 's',
         'boost::mutex::scoped_lock': 'x'}
MUTEX = {'std::mutex', 'boost::shared_mutex', 'boost::mutex',
         'std::recursive_mutex', 'std::timed_mutex', 'std::shared_timed_mutex',
         'std::shared_mutex', 'std::__mutex_base', 'static_map::common::Mutex'}
NONDET = {'rand', 'random', 'time', 'clock', 'now', 'getpid', 'get_id', 'sleep',
          'usleep', 'rand_r', 'drand48'}
STRING = {'std::basic_string', 'std::string', 'std::__cxx11::basic_string'}

NEUTRAL_NOARG = {'reserve', 'shrink_to_fit'}


def bty(t):
    t = t.strip()
    for k in ('const ', 'volatile '):
        while t.startswith(k):
            t = t[len(k):]
    if t.endswith('&&'):
        t = t[:-2]
    elif t.endswith('&'):
        t = t[:-1]
    return t.strip()


SCALARS = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'float',
           'double', 'bool', 'char', 'unsigned char', 'signed char',
           'unsigned short', 'long long', 'unsigned long long', 'size_t',
           'long double', 'int8_t', 'int16_t', 'int32_t', 'int64_t',
           'uint8_t', 'uint16_t', 'uint32_t', 'uint64_t', '__int128',
           'std::size_t', 'Eigen::Index', 'ptrdiff_t', 'Scalar'}
W32 = {'int', 'unsigned int', 'int32_t', 'uint32_t', '__int32_t', '__uint32_t'}
W64 = {'long', 'unsigned long', 'long long', 'unsigned long long', 'int64_t',
       'uint64_t', 'size_t', 'std::size_t', 'ptrdiff_t', 'PclTimeStamp',
       '__int64_t', '__uint64_t'}
FLOATS = {'float', 'double', 'long double'}


def is_scalar(t):
    return bty(t) in SCALARS


def eigen(t):
    return bty(t).startswith('Eigen::') or 'Eigen::' in bty(t).split('<')[0]


class Interp:
    def __init__(self, prog, inline=None, depth=8, max_states=6000, reads=False,
                 volatile=None, merge=None, model=None, writes=True,
                 field_events=None, max_steps=3000000, virt=None, opaque=(),
                 effects=(), narrow=False, unroll=0):
        self.p = prog
        self.inline_pred = inline
        self.depth = depth
        self.max_states = max_states
        self.reads = reads
        self.volatile = volatile
        self.merge = merge
        self.model = model
        self.virt = virt
        self.opaque = set(opaque)
        self.effects = set(effects)
        self.narrow = narrow
        self.unroll = unroll    # loops of constant length up to this are unrolled
        self.outs = []
        self.cnt = 0
        self.frames = 0
        self.mute = 0
        self.wlogs = []
        self.summaries = {}
        self.loops = {}
        self.stack = []
        self.steps = 0
        self.max_steps = max_steps
        self.visited_fns = set()
        self.callsites = 0
        self.unmodelled = set()

    # ------------------------------------------------------------ basics
    given = None        # atom -> truth in the case analysed, or None
    on_sync = None      # called after a lock is taken, given up or waited on

    def fresh(self, why=''):
        self.cnt += 1
        return ('hv', self.cnt, why)

    def ev(self, st, ev):
        if not self.mute:
            ev.locks = st.locks
            st.trace = (st.trace, ev)

    def init_state(self):
        s = State()
        s.store, s.env, s.vals = {}, {}, {}
        s.trace, s.pc, s.locks, s.ret, s.n = None, {}, (), None, 0
        s.client = None
        return s

    # ------------------------------------------------------------ memory
    def proj(self, v, loc):
        """value of the sub-location loc[...] of a value v; loc is ('f',_,n) or
        ('[]',_,i)"""
        k = v[0]
        sel = loc[2]
        if loc[0] == 'f':
            if k == 'ld':
                return ('ld', ('f', v[1], sel))
            if k == 'rec':
                for (s, x) in v[2]:
                    if s == ('f', sel):
                        return x
                return self.proj(v[1], loc)
            if k == 'cont':
                if sel == '#size':
                    return v[2]
            if k == 'it' and sel == '#idx':
                return v[2]
            if k == 'zero' or v == ZERO:
                return ZERO
            if k == 'obj' and v[1] == 'emplaced' and len(v) == 5 and \
                    sel in ('first', 'second'):
                return v[3 if sel == 'first' else 4]
            return ('fld', v, ('f', sel))
        # elements
        if k == 'ld':
            return ('ld', ('[]', v[1], sel))
        if k == 'vec' and T.num(sel) is not None and 0 <= T.num(sel) < len(v) - 1:
            return v[1 + int(T.num(sel))]
        if k == 'rec':
            for (s, x) in v[2]:
                if s == ('[]', sel):
                    return x
            if not any(s[0] == '[]' and self.may_eq(s[1], sel) for s, x in v[2]):
                return self.proj(v[1], loc)
            return ('fld', v, ('[]', sel))
        if k == 'I' and sel[0] == 'pair' and T.num(sel[1]) is not None \
                and T.num(sel[2]) is not None:
            return ONE if T.num(sel[1]) == T.num(sel[2]) else ZERO
        if k == 'c' and v == ZERO:
            return ZERO
        if k == 'zero':
            return ZERO
        if k == 'lin' and (sel[0] == 'c' or sel[0] == 'pair'):
            r = c(v[2])
            for t, a in v[1]:
                r = T.add(r, T.scale(self.proj(t, loc), a))
            return r
        if k == 'call' and v[1] == 'constant' and sel[0] in ('c', 'pair'):
            return v[2]
        if k == 'op' and v[1] == 'cabs':
            return ('call', 'abs', self.proj(v[2], loc))
        return ('fld', v, ('[]', sel))

    def may_eq(self, i, j):
        if i == j:
            return True
        ni, nj = T.num(i), T.num(j)
        if ni is not None and nj is not None:
            return ni == nj
        if i[0] == 'c' and j[0] == 'c':
            return i[1] == j[1]
        if i[0] == 'key' and j[0] == 'key':
            return self.may_eq(i[1], j[1])
        if i[0] == 'pair' and j[0] == 'pair':
            return self.may_eq(i[1], j[1]) and self.may_eq(i[2], j[2])
        if i[0] == 'blk' and j[0] in ('blk', 'pair', 'c') or j[0] == 'blk':
            return not blk_disjoint(i, j)
        d = T.sub(i, j) if i[0] in ('lin', 'c', 'iv') or j[0] == 'lin' else None
        if d is not None and T.num(d) is not None:
            return T.num(d) == 0
        return True

    def base_value(self, st, loc):
        """value by projection from the nearest enclosing stored location"""
        if loc in st.store:
            return st.store[loc]
        if loc[0] == '[]':
            el = st.store.get(('el', loc[1]))
            if el is not None:
                if el[0] == 'it_any':
                    pass
                return self.proj(el, loc)
            return self.proj(self.base_value(st, loc[1]), loc)
        if loc[0] == 'f':
            return self.proj(self.base_value(st, loc[1]), loc)
        if loc[0] == '*' and loc[1][0] == 'it':
            return loc[1]           # a temporary iterator
        return ('ld', loc)

    def load(self, st, loc, fn=None, node=None):
        if self.reads and not self.mute and fn is not None:
            self.ev(st, Ev('read', fn, node, loc=loc))
        if self.volatile and self.volatile(loc):
            return ('at', self.fresh()[1], loc)
        v = st.store.get(loc)
        if v is None and loc[0] == 'g':
            v = self.const_global(loc[1])
        if v is None:
            v = self.base_value(st, loc)
        subs = self.children(st, loc)
        if subs:
            return ('rec', v, subs)
        return v

    def const_global(self, q):
        """value of a constant initialised with a literal"""
        g = self.p.globals.get(q)
        if not g or g.get('e') is None:
            return None
        ty = g['tu'].types[g['t']]
        if not (ty.startswith('const ') or ty.endswith(' const')) or \
                '*' in ty or '&' in ty:
            return None
        n = g['nodes'][g['e']]
        while n['k'] in ('cast', 'stdinit') and 'cv' not in n and 'cvf' not in n:
            n = g['nodes'][n['e']]
        if 'cvf' in n:
            return c(float(n['cvf']))
        if 'cv' in n:
            return c(int(n['cv']) if not isinstance(n['cv'], bool) else n['cv'])
        return None

    def children(self, st, loc):
        out = []
        for l, v in st.store.items():
            if len(l) == 3 and l[0] in ('f', '[]') and l[1] == loc:
                out.append(((l[0], l[2]), self.full(st, l)))
        # deeper descendants with no intermediate entry
        seen = set()
        for l in st.store:
            x = l
            while x[0] in ('f', '[]', 'el'):
                p = x[1]
                if p == loc:
                    if x != l and x[0] != 'el' and x not in st.store:
                        seen.add(x)
                    break
                x = p
        for x in seen:
            out.append(((x[0], x[2]), self.full(st, x)))
        el = st.store.get(('el', loc))
        if el is not None:
            out.append((('el',), el))
        return tuple(sorted(out, key=lambda y: repr(y[0])))

    def full(self, st, loc):
        v = self.base_value(st, loc)
        subs = self.children(st, loc)
        return ('rec', v, subs) if subs else v

    def kill(self, st, loc):
        dead = [l for l in st.store if l != loc and T.is_prefix(loc, l)]
        for l in dead:
            del st.store[l]

    def store(self, st, loc, v, fn=None, node=None, quiet=False):
        for w in self.wlogs:
            w.add(loc)
        # writing one element may change others
        x = loc
        while x[0] in ('f', '[]'):
            if x[0] == '[]':
                self.touch_elem(st, x)
            x = x[1]
        self.kill(st, loc)
        while v[0] == 'rec' and v[1][0] == 'rec':
            v = ('rec', v[1][1], tuple(list(v[2]) + [
                y for y in v[1][2] if y[0] not in {z[0] for z in v[2]}]))
        if v[0] == 'rec':
            st.store[loc] = v[1]
            for s, x in v[2]:
                if s[0] == 'el':
                    st.store[('el', loc)] = x
                else:
                    self._put(st, (s[0], loc, s[1]), x)
        else:
            st.store[loc] = v
        if not quiet and fn is not None:
            self.ev(st, Ev('write', fn, node, loc=loc, val=v))

    def _put(self, st, loc, v):
        if v[0] == 'rec':
            st.store[loc] = v[1]
            for s, x in v[2]:
                if s[0] == 'el':
                    st.store[('el', loc)] = x
                else:
                    self._put(st, (s[0], loc, s[1]), x)
        else:
            st.store[loc] = v

    def touch_elem(self, st, x):
        """the element x = ('[]', L, i) is about to change"""
        L, i = x[1], x[2]
        dead = []
        for l in st.store:
            y = l
            while y[0] in ('f', '[]', 'el'):
                if y[0] == '[]' and y[1] == L and y != x and \
                        self.may_eq(y[2], i):
                    dead.append(l)
                    break
                y = y[1]
        for l in dead:
            del st.store[l]
        if T.num(i) is None and i[0] not in ('key', 'pair', 'blk'):
            if x not in st.store:
                st.store[('el', L)] = self.fresh('elems')
        elif dead:
            st.store[('el', L)] = self.fresh('elems')

    def havoc(self, st, loc, why='', fn=None, node=None):
        v = self.fresh(why or T.show(loc))
        self.store(st, loc, v, fn, node, quiet=True)
        return v

    # -------------------------------------------------------- path condition
    def decide(self, st, t):
        """True/False/None for a boolean term under the path condition"""
        a, p = T.lit(t)
        if a[0] == 'c':
            v = bool(a[1])
            return v if p else not v
        v = self._decide(st, a)
        return None if v is None else (v if p else not v)

    def _decide(self, st, a):
        pc = st.pc
        if a in pc:
            return pc[a]
        if self.given:
            v = self.given(a)
            if v is not None:
                return v
        if a[0] == '<':
            x, y = a[1], a[2]
            if pc.get(('<', y, x)) is True:
                return False
            e = ('==',) + tuple(sorted((x, y), key=repr))
            if pc.get(e) is True:
                return False
            if pc.get(e) is False and pc.get(('<', y, x)) is False:
                return True
            nx, ny = T.num(x), T.num(y)
            # bounds by constants
            t, k = (x, ny) if ny is not None else (y, nx)
            if k is not None:
                lo, hi, los, his = self.bounds(st, t)
                if ny is not None:      # t < k ?
                    if hi is not None and (hi < k or (hi == k and his)):
                        return True
                    if lo is not None and lo >= k:
                        return False
                else:                   # k < t ?
                    if lo is not None and (lo > k or (lo == k and los)):
                        return True
                    if hi is not None and hi <= k:
                        return False
            else:
                # a < b with integer offsets: a0 + k known?
                for (q, v) in pc.items():
                    if q[0] == '<' and v is True and q[1] == x and q[2][0] == 'lin':
                        pass
            return None
        if a[0] == '==':
            x, y = a[1], a[2]
            if pc.get(('<', x, y)) is True or pc.get(('<', y, x)) is True:
                return False
            if pc.get(('<', x, y)) is False and pc.get(('<', y, x)) is False:
                return True
            k, t = (x, y) if x[0] == 'c' else (y, x)
            if k[0] == 'c':
                for q, v in pc.items():
                    if v is True and q[0] == '==' and t in q[1:]:
                        o = q[1] if q[2] == t else q[2]
                        if o[0] == 'c':
                            return o[1] == k[1]
                n = T.num(k)
                if n is not None:
                    lo, hi, los, his = self.bounds(st, t)
                    if lo is not None and (lo > n or (lo == n and los)):
                        return False
                    if hi is not None and (hi < n or (hi == n and his)):
                        return False
                    if lo is not None and lo == hi == n:
                        return True
            return None
        return None

    def nonneg(self, t):
        if t[0] == 'ld' and t[1][0] == 'f' and t[1][2] == '#size':
            return True
        if t[0] == 'fld' and t[2] == ('f', '#size'):
            return True
        if t[0] == 'call' and t[1] in ('abs', 'sqrt', 'norm', 'length'):
            return True
        return False

    def bounds(self, st, t):
        lo = hi = None
        los = his = False
        if self.nonneg(t):
            lo = 0
        d, k0 = T.lin(t) if t[0] == 'lin' else ({t: 1}, 0)
        for q, v in st.pc.items():
            if q[0] == '<':
                a, b = q[1], q[2]
                na, nb = T.num(a), T.num(b)
                if a == t and nb is not None:
                    if v and (hi is None or nb < hi or (nb == hi and not his)):
                        hi, his = nb, True
                    elif not v and (lo is None or nb > lo):
                        lo, los = nb, False
                elif b == t and na is not None:
                    if v and (lo is None or na > lo or (na == lo and not los)):
                        lo, los = na, True
                    elif not v and (hi is None or na < hi):
                        hi, his = na, False
            elif q[0] == '==' and v and t in q[1:]:
                o = q[1] if q[2] == t else q[2]
                n = T.num(o)
                if n is not None:
                    lo = hi = n
                    los = his = False
            elif q[0] == '==' and not v and t in q[1:]:
                o = q[1] if q[2] == t else q[2]
                n = T.num(o)
                if n is not None and lo == n:
                    los = True
                if n is not None and hi == n:
                    his = True
        return lo, hi, los, his

    def assume(self, st, t, val=True):
        """add the literal; False if it contradicts the path"""
        a, p = T.lit(t)
        want = p == val
        if a[0] == 'c':
            return bool(a[1]) == want
        d = self._decide(st, a)
        if d is not None:
            return d == want
        st.pc[a] = want
        return True

    # ------------------------------------------------------------- running
    def run(self, fn, this=('this',), args=None, state=None):
        """all paths of fn from an arbitrary state; fills self.outs"""
        st = state or self.init_state()
        frame = self.new_frame()
        self.bind_params(fn, frame, st, args)
        for s, v in self.exec_fn(fn, frame, st, this):
            self.outs.append(Out('ret', s, v, fn))
        return self.outs

    def new_frame(self):
        self.frames += 1
        return self.frames

    def bind_params(self, fn, frame, st, args):
        for i, p in enumerate(fn.params):
            loc = ('v', frame, p['d'], p['n'])
            if args is not None and i < len(args) and args[i] is not None:
                a = args[i]
                if p.get('isref'):
                    if a[0] == '&':
                        st.env[(frame, p['d'])] = a[1]
                    else:
                        t = ('tmp', frame, 'p%d' % i)
                        self.store(st, t, a, quiet=True)
                        st.env[(frame, p['d'])] = t
                else:
                    self.store(st, loc, a, quiet=True)
            elif p.get('isref'):
                st.env[(frame, p['d'])] = ('arg', p['n'], i)
            else:
                self.store(st, loc, ('ld', ('arg', p['n'], i)), quiet=True)

    def exec_fn(self, fn, frame, st, this):
        if fn.nocfg:
            return [(st, self.fresh('nocfg'))]
        self.visited_fns.add(fn.id)
        saved = st.vals
        st.vals = {'this': this, 'frame': frame}
        self.stack.append(fn.id)
        try:
            exits, backs = self.region(fn, frame, fn.entry, [st], None)
        finally:
            self.stack.pop()
        res = []
        for (b, s) in exits:
            v = s.ret
            s.ret = None
            s.vals = dict(saved)
            res.append((s, v if v is not None else ('void',)))
        return res

    def region(self, fn, frame, start, states, body):
        """explore blocks of body (None: whole function) from start.  Returns
        ([(target, state)] leaving the region, [state] back at start)."""
        succ, pred, rpo, back, loops = fn.analyse()
        exits, backs = [], []
        work = []
        n = 0
        for s in states:
            heapq.heappush(work, (rpo[start], n, start, s, True))
            n += 1
        while work:
            r, _, b, st, first = heapq.heappop(work)
            # merge states waiting at the same block
            if self.merge is not None and not first:
                group = [st]
                while work and work[0][2] == b and not work[0][4]:
                    group.append(heapq.heappop(work)[3])
                if len(group) > 1:
                    group = self.merge_states(group)
                for g in group[1:]:
                    heapq.heappush(work, (r, n, b, g, 'm'))
                    n += 1
                st = group[0]
            if b in loops and not (first is True and b == start and body is not None):
                outs = self.do_loop(fn, frame, b, st)
            elif b == fn.exit:
                exits.append((b, st))
                continue
            else:
                outs = self.block(fn, frame, b, st)
            for (t, s) in outs:
                if body is not None and t == start:
                    backs.append(s)
                elif (body is not None and t not in body):
                    exits.append((t, s))
                elif t == fn.exit:
                    exits.append((t, s))
                else:
                    heapq.heappush(work, (rpo[t], n, t, s, False))
                    n += 1
            if len(work) + len(exits) > self.max_states:
                raise Budget('%s: more than %d paths' % (fn.q, self.max_states))
        return exits, backs

    def merge_states(self, group):
        out = {}
        for s in group:
            k = self.merge(s)
            if k is None:
                k = ('unique', id(s))
            if k in out:
                o = out[k]
                # intersect the path conditions, join the stores
                for a in list(o.pc):
                    if s.pc.get(a) != o.pc[a]:
                        del o.pc[a]
                for l in set(o.store) | set(s.store):
                    if o.store.get(l) != s.store.get(l):
                        if l in o.store and l in s.store or True:
                            o.store[l] = ('hv', self.cnt + 1, 'join')
                            self.cnt += 1
                for l in list(o.env):
                    if s.env.get(l) != o.env[l]:
                        del o.env[l]
                for l in list(o.vals):
                    if s.vals.get(l) != o.vals[l]:
                        o.vals[l] = self.fresh('join')
            else:
                out[k] = s
        return list(out.values())

    def generalise(self, ws, frame0):
        """written locations -> locations to forget at a loop head"""
        out = set()
        for w in ws:
            # strip to the shortest prefix that has no varying index
            x = w
            keep = w
            while x[0] in ('f', '[]'):
                if x[0] == '[]' and T.num(x[2]) is None:
                    keep = ('el', x[1])
                x = x[1]
            out.add(keep)
        return out

    def unrolled(self, fn, frame, head, st, body):
        """exits of a loop whose condition is a constant every time, else None"""
        ss = [t for t in fn.blocks[head]['s'] if t >= 0]
        if len(ss) != 2 or ss[0] not in body and ss[1] not in body:
            return None
        late = ss[0] in body and ss[1] in body  # decided further down
        outs0 = len(self.outs)
        exits, cur = [], [st.copy()]
        for k in range(self.unroll + 1):
            nxt = []
            for s in cur:
                self.mute += 1
                try:
                    succs = self.block(fn, frame, head, s.copy())
                finally:
                    self.mute -= 1
                if len(succs) != 1 or k == self.unroll and succs[0][0] in body:
                    del self.outs[outs0:]
                    return None
                ex, bk = self.region(fn, frame, head, [s], body)
                if late and (len(ex) + len(bk) != 1 or k == self.unroll and bk):
                    del self.outs[outs0:]
                    return None
                exits.extend(ex)
                nxt.extend(bk)
            cur = nxt
            if not cur:
                return exits
            if len(cur) > 64:
                break
        del self.outs[outs0:]
        return None

    def do_loop(self, fn, frame, head, st):
        succ, pred, rpo, back, loops = fn.analyse()
        body = loops[head]
        if self.unroll:
            r = self.unrolled(fn, frame, head, st, body)
            if r is not None:
                return r
        key = (fn.id, head, tuple(self.stack))
        lid = self.loops.setdefault(key, len(self.loops) + 1)
        # 1. discover what an iteration may write and which variables advance
        # by a constant; repeated until both are stable
        W = set()
        outs0 = len(self.outs)
        pre = st
        ind = {}
        noind = set()
        for rnd in range(10):
            mark = self.cnt
            s = pre.copy()
            syms = self.forget(s, W, pre, ind, lid)
            log = set()
            self.wlogs.append(log)
            self.mute += 1
            try:
                exits, backs = self.region(fn, frame, head, [s], body)
            finally:
                self.mute -= 1
                self.wlogs.pop()
                del self.outs[outs0:]
            new = {g for g in self.generalise(log, frame)
                   if not any(T.is_prefix(w, g) for w in W)}
            new = {g for g in new if not self.varying(g, mark, lid)
                   and self.exists(g, pre)}
            ch = bool(new)
            W |= new
            for w, sym in syms.items():
                if w[0] == 'el' or w in noind or not backs:
                    continue
                v0 = self.load_raw(pre, w)
                steps = {self.step(self.load_raw(b, w), sym) for b in backs}
                st1 = steps.pop() if len(steps) == 1 else None
                if w in ind:
                    if st1 != ind[w][1]:
                        del ind[w]
                        noind.add(w)
                        ch = True
                elif st1 is not None and st1 != 0:
                    ind[w] = (v0, st1)
                    ch = True
            if not ch:
                break
        # pointers that stay in the same container: kept by value below
        s = pre.copy()
        syms = self.forget(s, W, pre, ind, lid)
        if self.on_sync:
            for m in {l[0] for l in s.locks}:
                self.on_sync(self, s, m, 'loop')
        self.ev(s, Ev('loop', fn, fn.blocks[head].get('c', -1), x=lid,
                      val=tuple(sorted(((w, v) for w, v in syms.items()),
                                       key=repr))))
        nb = s.copy()
        exits, backs = self.region(fn, frame, head, [s], body)
        self.summarise(fn, head, body, lid, syms, ind, nb, exits, backs)
        for b in backs:
            self.ev(b, Ev('iterend', fn, fn.blocks[head].get('c', -1), x=lid))
            if not self.mute:
                self.outs.append(Out('back', b, None, fn, lid))
        for t, e in exits:
            self.ev(e, Ev('loopexit', fn, fn.blocks[head].get('c', -1), x=lid))
        return exits

    def step(self, v, sym):
        if sym[0] == 'it':
            if v[0] != 'it' or v[1] != sym[1]:
                return None
            return T.num(T.sub(v[2], sym[2]))
        if v[0] in ('lin', 'hv', 'iv') or v == sym:
            return T.num(T.sub(v, sym))
        return None

    def varying(self, g, mark, lid):
        for t in T.walk(g):
            if isinstance(t, tuple) and t:
                if t[0] in ('hv', 'res', 'at', 'heap') and len(t) > 1 and \
                        isinstance(t[1], int) and t[1] > mark:
                    return True
                if t[0] == 'iv' and t[1] == lid:
                    return True
        return False

    def exists(self, g, pre):
        # body-local variables need not be forgotten
        r = T.root(g if g[0] != 'el' else g[1])
        if r[0] == 'tmp':
            return False
        if r[0] == 'v':
            return any(T.root(l) == r for l in pre.store) or \
                any(True for k, l in pre.env.items() if T.root(l) == r)
        if r[0] == 'heap':
            return any(T.root(l) == r for l in pre.store)
        return True

    def load_raw(self, st, w):
        if w[0] == 'el':
            return st.store.get(w, ('ld', w))
        v = self.base_value(st, w)
        return v

    def forget(self, s, W, pre, ind, lid):
        syms = {}
        for w in sorted(W, key=repr):
            v0 = self.load_raw(pre, w)
            if w in ind:
                init, step = ind[w]
                if init[0] == 'it':
                    sym = ('it', init[1], ('iv', lid, init[2], c(step)))
                    idx = sym[2]
                    if step > 0:
                        s.pc[('<', idx, init[2])] = False
                else:
                    sym = ('iv', lid, init, c(step))
                    lt = T.cmp('<', sym, init) if step > 0 else T.cmp('<', init, sym)
                    a, p = T.lit(lt)
                    if a[0] != 'c':
                        s.pc[a] = not p
            else:
                self.cnt += 1
                sym = ('hv', self.cnt, 'L%d:%s' % (lid, T.show(w)))
            syms[w] = sym
            if w[0] == 'el':
                L = w[1]
                for l in [l for l in s.store if l != L and T.is_prefix(L, l)
                          and self._under_elem(L, l)]:
                    del s.store[l]
                s.store[w] = sym
                for wl in self.wlogs:
                    wl.add(('[]', L, ('hv', self.cnt, 'any')))
            else:
                self.store(s, w, sym, quiet=True)
        return syms

    def _under_elem(self, L, l):
        x = l
        while x[0] in ('f', '[]', 'el'):
            if x[1] == L:
                return x[0] in ('[]', 'el')
            x = x[1]
        return False

    def summarise(self, fn, head, body, lid, syms, ind, s0, exits, backs):
        """A[i] written on every path of an iteration with i the induction
        variable: remember the value as a function of i"""
        for w, sym in syms.items():
            if w[0] != 'el' or not backs:
                continue
            L = w[1]
            for iv in {v for v in syms.values() if v[0] == 'iv'} | \
                    {v[2] for v in syms.values() if v[0] == 'it'}:
                if T.num(iv[3]) != 1:
                    continue
                ok = True
                cases = []
                for b in backs:
                    loc = ('[]', L, iv)
                    val = b.store.get(loc)
                    sub = self.children(b, loc)
                    if val is None and not sub:
                        ok = False
                        break
                    if sub:
                        val = ('rec', val if val is not None else
                               ('fld', sym, ('[]', iv)), sub)
                    delta = [(a, p) for a, p in b.pc.items()
                             if a not in s0.pc]
                    cases.append((delta, val))
                if ok:
                    self.summaries[sym] = (iv, cases)

    # -------------------------------------------------------------- blocks
    def block(self, fn, frame, b, st):
        B = fn.blocks[b]
        states = [st]
        for e in B['e']:
            nxt = []
            for s in states:
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Budget('%s: step budget' % fn.q)
                nxt.extend(self.element(fn, frame, e, s))
            states = nxt
            if len(states) > self.max_states:
                raise Budget('%s: more than %d paths' % (fn.q, self.max_states))
        out = []
        ss = B['s']
        if B.get('noret') or not ss:
            for s in states:
                if not self.mute:
                    self.outs.append(Out('abort', s, None, fn))
            return out
        tk = B.get('tk')
        for s in states:
            if s.n == -1:           # path ended in throw
                if not self.mute:
                    self.outs.append(Out('throw', s, None, fn))
                continue
            if len(ss) == 1:
                if ss[0] >= 0:
                    out.append((ss[0], s))
                continue
            if B.get('tdb'):
                t = ss[0] if B.get('te') in s.vals else ss[1]
                if t >= 0:
                    out.append((t, s))
                continue
            if tk == 'SwitchStmt':
                out.extend(self.switch(fn, frame, B, s))
                continue
            if len(ss) == 2 and B.get('c') is not None and B['c'] >= 0 and \
                    tk != 'CXXTryStmt':
                cond = self.truth(fn, s, self.cond_value(fn, s, B['c']), B['c'])
                for i, pol in ((0, True), (1, False)):
                    if ss[i] < 0:
                        continue
                    d = self.decide(s, cond)
                    if d is not None and d != pol:
                        continue
                    s2 = s.copy()
                    if not self.assume(s2, cond, pol):
                        continue
                    if 'te' in B:
                        s2.vals[('br', B['te'])] = pol
                    a, p = T.lit(cond)
                    if a[0] != 'c':
                        self.ev(s2, Ev('cond', fn, B['c'], val=a,
                                       pol=(p == pol)))
                    out.append((ss[i], s2))
                continue
            for t in ss:
                if t >= 0:
                    out.append((t, s.copy()))
        return out

    def cond_value(self, fn, s, i):
        n = fn.nodes[i]
        if n['k'] == 'bin' and n['op'] in ('&&', '||') and i not in s.vals:
            return self.cond_value(fn, s, n['b'])
        return self.val(fn, s, i)

    def truth(self, fn, st, v, i):
        """boolean term of a value used as a condition"""
        if v[0] == 'c':
            return c(bool(v[1]))
        if v[0] in ('&', 'new', 'lam'):
            return TRUE
        if v[0] in ('!', '<', '=='):
            return v
        if v[:2] == ('op', 'b2i'):
            return v[2]
        t = bty(fn.node_ty(i))
        if t.endswith('*'):
            return T.not_(T.cmp('==', NULL, v))
        if t in SCALARS and t != 'bool':
            return T.not_(T.cmp('==', ZERO, v))
        return v

    def switch(self, fn, frame, B, s):
        v = self.val(fn, s, B['c'])
        out = []
        cases = []
        default = None
        for t in B['s']:
            if t < 0:
                continue
            tb = fn.blocks[t]
            if 'case' in tb:
                k = self.val(fn, s, tb['case'])
                cases.append((t, k))
            else:
                default = t
        for t, k in cases:
            s2 = s.copy()
            e = T.cmp('==', v, k)
            if self.assume(s2, e, True):
                a, p = T.lit(e)
                if a[0] != 'c':
                    self.ev(s2, Ev('cond', fn, B['c'], val=a, pol=p))
                out.append((t, s2))
        if default is not None:
            s2 = s.copy()
            ok = True
            for t, k in cases:
                e = T.cmp('==', v, k)
                if not self.assume(s2, e, False):
                    ok = False
                    break
                a, p = T.lit(e)
                if a[0] != 'c':
                    self.ev(s2, Ev('cond', fn, B['c'], val=a, pol=not p))
            if ok:
                out.append((default, s2))
        return out

    # ------------------------------------------------------------ elements
    def element(self, fn, frame, e, st):
        if 's' in e:
            return self.eval(fn, frame, e['s'], st)
        if 'init' in e:
            loc = ('f', self.this(st), e['init'])
            if e.get('e', -1) >= 0:
                i = e['e']
                v = self.rvalue(fn, st, i)
                if self.is_ref_field(fn, e):
                    v = self.val(fn, st, i)
                self.store(st, loc, v, fn, i)
            return [st]
        if 'base' in e or 'deleg' in e:
            return [st]
        if 'dtor' in e:
            return self.dtor(fn, frame, e, st)
        return [st]

    def is_ref_field(self, fn, e):
        return False

    def dtor(self, fn, frame, e, st):
        if e['dtor'] == 'auto':
            loc = ('v', frame, e.get('d'), e.get('n'))
            v = st.store.get(loc)
            if v is not None and v[0] == 'lock':
                self.release(st, v, fn, -1, loc)
                return [st]
            self.ev(st, Ev('dtor', fn, -1, loc=loc, q=(e.get('fn') or {}).get('q'),
                           val=v))
        return [st]

    def this(self, st):
        return st.vals['this']

    # --------------------------------------------------------- expressions
    def val(self, fn, st, i):
        """value of node i (address for lvalues)"""
        v = st.vals.get(i)
        if v is not None:
            return v
        r = self.eval(fn, st.vals['frame'], i, st)
        # on-demand evaluation must not fork; take the first
        if len(r) == 1 and r[0] is st:
            return st.vals.get(i, ('void',))
        if r:
            return r[0].vals.get(i, ('void',))
        return self.fresh('dead')

    def rvalue(self, fn, st, i):
        v = self.val(fn, st, i)
        if fn.nodes[i].get('lv') and v[0] == '&':
            return self.load(st, v[1], fn, i)
        return v

    def lloc(self, fn, st, i):
        """location of an object expression (materialised when needed)"""
        v = self.val(fn, st, i)
        n = fn.nodes[i]
        if n.get('lv') and v[0] not in PRV:
            if v[0] == '&':
                return v[1]
            return ('*', v)
        loc = ('tmp', st.vals['frame'], i)
        if st.store.get(loc) != v:
            self.store(st, loc, v, quiet=True)
        return loc

    def deref(self, v):
        if v[0] == '&':
            return v[1]
        if v[0] == 'it':
            return ('[]', v[1], v[2])
        return ('*', v)

    def ptr(self, fn, st, i):
        """value of a (smart) pointer expression"""
        v = self.val(fn, st, i)
        if fn.nodes[i].get('lv') and v[0] not in PRV:
            loc = v[1] if v[0] == '&' else ('*', v)
            return self.load(st, loc, fn, i)
        return v

    def set(self, st, i, v):
        st.vals[i] = v
        return [st]

    def eval(self, fn, frame, i, st):
        n = fn.nodes[i]
        k = n['k']
        if 'cv' in n and k not in ('call', 'ctor', 'decl') and not n.get('lv'):
            t = bty(fn.ty(n['t'])) if 't' in n else ''
            x = int(n['cv'])
            if t == 'bool':
                return self.set(st, i, c(bool(x)))
            if t.endswith('*') or t == 'std::nullptr_t':
                return self.set(st, i, NULL if x == 0 else c(x))
            return self.set(st, i, c(x))
        if 'cvf' in n and not n.get('lv') and k not in ('ctor', 'decl'):
            x = float(n['cvf'])
            return self.set(st, i, c(int(x) if x == x and abs(x) < 1e15 and
                                     x == int(x) else x))
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return self.set(st, i, self.fresh(k))
        return m(fn, frame, i, n, st)

    def e_int(self, fn, frame, i, n, st):
        return self.set(st, i, c(int(n.get('cv', 0))))

    def e_float(self, fn, frame, i, n, st):
        return self.set(st, i, self.fresh('float'))

    def e_bool(self, fn, frame, i, n, st):
        return self.set(st, i, c(bool(n['v'])))

    def e_str(self, fn, frame, i, n, st):
        return self.set(st, i, ('&', ('strlit', n['v'])))

    def e_null(self, fn, frame, i, n, st):
        return self.set(st, i, NULL)

    def e_zeroinit(self, fn, frame, i, n, st):
        t = bty(fn.ty(n['t']))
        if t.endswith('*'):
            return self.set(st, i, NULL)
        if t == 'bool':
            return self.set(st, i, FALSE)
        return self.set(st, i, ZERO if t in SCALARS else ('zero',))

    def e_this(self, fn, frame, i, n, st):
        return self.set(st, i, ('&', self.this(st)))

    def e_ref(self, fn, frame, i, n, st):
        dk = n.get('dk')
        if dk in ('param', 'local'):
            cap = st.vals.get('cap')
            loc = None
            if cap is not None and n['d'] in cap:
                loc = cap[n['d']]
            else:
                loc = st.env.get((frame, n['d']))
            if loc is None:
                loc = ('v', frame, n['d'], n['n'])
                if n.get('isref'):
                    loc = ('*', ('ld', loc))
            return self.set(st, i, ('&', loc))
        if dk == 'func':
            return self.set(st, i, ('fn', n['fn']['u'], n['fn']['q']))
        if dk == 'enum':
            if 'cv' in n:
                return self.set(st, i, c(int(n['cv'])))
            return self.set(st, i, ('enum', n.get('q')))
        if dk == 'slocal':
            return self.set(st, i, ('&', ('g', fn.q + '::' + n['n'])))
        if dk == 'global':
            g = self.p.globals.get(n.get('q'))
            loc = ('g', n.get('q'))
            return self.set(st, i, ('&', loc))
        return self.set(st, i, ('&', ('g', n.get('q') or n['n'])))

    def e_mem(self, fn, frame, i, n, st):
        if n.get('fn'):
            return self.set(st, i, ('fn', n['fn']['u'], n['fn']['q']))
        if n.get('static'):
            return self.set(st, i, ('&', ('g', n.get('q'))))
        if n.get('arrow'):
            loc = self.deref(self.ptr(fn, st, n['b']))
        else:
            loc = self.lloc(fn, st, n['b'])
        f = ('f', loc, n['n'])
        if n.get('isref'):
            v = self.base_value(st, f)
            return self.set(st, i, v if v[0] == '&' else ('&', ('*', v)))
        return self.set(st, i, ('&', f))

    def e_cast(self, fn, frame, i, n, st):
        ck = n['ck']
        e = n['e']
        if ck == 'LValueToRValue':
            v = self.val(fn, st, e)
            loc = v[1] if v[0] == '&' else ('*', v)
            return self.load_fork(fn, st, i, e, loc)
        v = self.val(fn, st, e)
        if ck in ('IntegralToFloating',):
            if v[0] == 'c':
                return self.set(st, i, v)
            return self.set(st, i, ('fl', v))
        if ck == 'FloatingToIntegral':
            if v[0] == 'c' and T.num(v) is not None and abs(T.num(v)) < 1e18:
                return self.set(st, i, c(int(T.num(v))))
            v = v[1] if v[0] == 'fl' else ('op', 'trunc', v)
            t = bty(fn.ty(n['t']))
            if t in NARROW:
                v = ('op', 'narrow:' + t, v)
            return self.set(st, i, v)
        if ck == 'IntegralCast':
            t = bty(fn.ty(n['t']))
            if t != 'bool' and bty(fn.node_ty(e)) == 'bool':
                return self.set(st, i, c(int(v[1])) if v[0] == 'c' and isinstance(
                    v[1], (bool, int)) else ('op', 'b2i', v))
            if t in NARROW and v[0] != 'c':
                return self.set(st, i, ('op', 'narrow:' + t, v))
            if self.narrow and v[0] != 'c' and t in W32 and \
                    bty(fn.node_ty(e)) in W64:
                return self.set(st, i, ('op', 'n32', v))
            return self.set(st, i, v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            if v[0] == 'c':
                return self.set(st, i, c(bool(v[1])))
            if v[0] in ('!', '<', '=='):
                return self.set(st, i, v)
            if v[:2] == ('op', 'b2i'):
                return self.set(st, i, v[2])
            return self.set(st, i, T.not_(T.cmp('==', ZERO, v)))
        if ck == 'PointerToBoolean':
            return self.set(st, i, T.not_(T.cmp('==', NULL, v)))
        if ck == 'NullToPointer':
            return self.set(st, i, NULL)
        if ck == 'ToVoid':
            return self.set(st, i, ('void',))
        if ck == 'ArrayToPointerDecay':
            if v[0] == '&':
                if v[1][0] == 'strlit':
                    return self.set(st, i, c(v[1][1]))
                return self.set(st, i, ('&', v[1]))
            return self.set(st, i, v)
        if ck in ('UserDefinedConversion', 'ConstructorConversion'):
            return self.set(st, i, v)
        return self.set(st, i, v)

    def load_fork(self, fn, st, i, e, loc):
        v = self.load(st, loc, fn, e)
        x = v
        # summarised array element?
        path = []
        while x[0] == 'fld':
            path.append(x[2])
            x = x[1]
        if x in self.summaries and path and path[-1][0] == '[]':
            iv, cases = self.summaries[x]
            j = path[-1][1]
            out = []
            if j != iv:
                for delta, val in cases:
                    s2 = st.copy()
                    m = {iv: j}
                    ok = True
                    for a, p in delta:
                        a2 = T.subst(a, m)
                        if not self.assume(s2, a2, p):
                            ok = False
                            break
                    if not ok:
                        continue
                    for a, p in delta:
                        a2, q = T.lit(T.subst(a, m))
                        if a2[0] != 'c':
                            self.ev(s2, Ev('cond', fn, e, val=a2, pol=(p == q),
                                           x='summary'))
                    r = T.subst(val, m)
                    for sel in reversed(path[:-1]):
                        r = self.proj(r, (sel[0], None, sel[1]))
                    s2.vals[i] = r
                    out.append(s2)
                if out:
                    return out
        st.vals[i] = v
        return [st]

    def e_un(self, fn, frame, i, n, st):
        op = n['op']
        e = n['e']
        if op == '&':
            return self.set(st, i, self.val(fn, st, e))
        if op == '*':
            v = self.val(fn, st, e)
            return self.set(st, i, ('&', self.deref(v)))
        if op == '!':
            v = self.val(fn, st, e)
            return self.set(st, i, T.not_(self.truth(fn, st, v, e)))
        if op == '-':
            return self.set(st, i, T.neg(self.val(fn, st, e)))
        if op == '+':
            return self.set(st, i, self.val(fn, st, e))
        if op in ('++', '--'):
            loc = self.lloc(fn, st, e)
            old = self.load(st, loc, fn, e)
            new = self.shift(old, 1 if op == '++' else -1)
            self.store(st, loc, new, fn, i)
            if n.get('post'):
                return self.set(st, i, old)
            return self.set(st, i, ('&', loc) if n.get('lv') else new)
        if op == '~':
            return self.set(st, i, ('op', '~', self.val(fn, st, e)))
        return self.set(st, i, self.val(fn, st, e))

    def shift(self, v, k):
        if v[0] == 'it':
            return ('it', v[1], T.add(v[2], c(k) if isinstance(k, int) else k))
        if v[0] == 'itadd':
            return ('itadd', v[1], T.add(v[2], c(k) if isinstance(k, int) else k))
        return T.add(v, c(k) if isinstance(k, int) else k)

    def e_bin(self, fn, frame, i, n, st):
        op = n['op']
        if op in ('&&', '||'):
            br = st.vals.get(('br', i))
            if br is None:
                a = self.truth(fn, st, self.val(fn, st, n['a']), n['a'])
                d = self.decide(st, a)
                if d is not None:
                    br = d
            if br is not None and br == (op == '||'):
                return self.set(st, i, c(br))
            b = self.truth(fn, st, self.val(fn, st, n['b']), n['b'])
            d = self.decide(st, b)
            return self.set(st, i, b if d is None else c(d))
        if op == ',':
            return self.set(st, i, self.val(fn, st, n['b']))
        if op == '=':
            loc = self.lloc(fn, st, n['a'])
            v = self.rvalue(fn, st, n['b'])
            self.store(st, loc, v, fn, i)
            return self.set(st, i, ('&', loc))
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            loc = self.lloc(fn, st, n['a'])
            old = self.load(st, loc, fn, n['a'])
            b = self.rvalue(fn, st, n['b'])
            ta = bty(fn.node_ty(n['a']))
            tc = bty(fn.ty(n['cot'])) if 'cot' in n else ta
            v = self.arith(op[:-1], old, b, tc)
            self.store(st, loc, v, fn, i)
            return self.set(st, i, ('&', loc))
        a = self.rvalue(fn, st, n['a'])
        b = self.rvalue(fn, st, n['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.set(st, i, self.compare(op, a, b))
        return self.set(st, i, self.arith(op, a, b, bty(fn.ty(n['t']))))

    def compare(self, op, a, b):
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
            return T.cmp(op, a[2], b[2])
        if a[0] == 'fl' and b[0] == 'fl':
            a, b = a[1], b[1]
        return T.cmp(op, a, b)

    def arith(self, op, a, b, t):
        if op == '+':
            if a[0] == 'it' or b[0] == 'it':
                return self.shift(a, b) if a[0] == 'it' else self.shift(b, a)
            return T.add(a, b)
        if op == '-':
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return T.sub(a[2], b[2])
            if a[0] == 'it':
                return self.shift(a, T.neg(b))
            return T.sub(a, b)
        if op == '*':
            return T.mul(a, b)
        if op == '/':
            return T.div(a, b, integer=t in SCALARS and t not in FLOATS)
        if op == '%':
            na, nb = T.num(a), T.num(b)
            if na is not None and nb:
                return c(int(na) % int(nb) if na >= 0 and nb > 0 else
                         int(na) - int(nb) * int(int(na) / int(nb)))
            return ('op', '%', a, b)
        if op in ('|', '&', '^', '<<', '>>'):
            na, nb = T.num(a), T.num(b)
            if isinstance(na, int) and isinstance(nb, int) and nb >= 0:
                return c({'|': na | nb, '&': na & nb, '^': na ^ nb,
                          '<<': na << nb if nb < 128 else 0,
                          '>>': na >> nb}[op])
            if op in ('|', '&', '^'):
                return ('op', op) + tuple(sorted((a, b), key=repr))
        return ('op', op, a, b)

    def e_idx(self, fn, frame, i, n, st):
        b = self.val(fn, st, n['b'])
        x = self.rvalue(fn, st, n['i'])
        if b[0] == '&':
            loc = ('[]', b[1], x)
            m = fn.nodes[n['b']]
            if b[1][0] == '[]' and not (m['k'] == 'cast' and m.get(
                    'ck') == 'ArrayToPointerDecay'):    # pointer into an array
                loc = ('[]', b[1][1], T.add(b[1][2], x))
        else:
            loc = ('[]', ('*', b), x)
        return self.set(st, i, ('&', loc))

    def e_cond(self, fn, frame, i, n, st):
        br = st.vals.get(('br', i))
        if br is None:
            v = self.truth(fn, st, self.val(fn, st, n['c']), n['c'])
            br = self.decide(st, v)
        if br is None:
            a = self.val(fn, st, n['a'])
            b = self.val(fn, st, n['b'])
            return self.set(st, i, ('ite', v, a, b) if a != b else a)
        return self.set(st, i, self.val(fn, st, n['a'] if br else n['b']))

    def e_init(self, fn, frame, i, n, st):
        t = bty(fn.ty(n['t'])) if 't' in n else ''
        vs = [self.rvalue(fn, st, a) for a in n.get('a', [])]
        if is_scalar(t) and len(vs) <= 1:
            return self.set(st, i, vs[0] if vs else ZERO)
        if len(vs) == 1 and fn.node_ty(n['a'][0]) == fn.ty(n.get('t')):
            return self.set(st, i, vs[0])
        r = self.p.records.get(base(t))
        if r is not None and r.get('fields'):
            subs = []
            for f, v in zip(r['fields'], vs):
                subs.append((('f', f['n']), v))
            return self.set(st, i, ('rec', ('init', t), tuple(
                sorted(subs, key=repr))))
        subs = tuple((('[]', c(j)), v) for j, v in enumerate(vs))
        return self.set(st, i, ('rec', ('cont', t, c(len(vs))), subs))

    def e_stdinit(self, fn, frame, i, n, st):
        return self.set(st, i, self.rvalue(fn, st, n['e']))

    def e_arrinit(self, fn, frame, i, n, st):
        return self.set(st, i, self.fresh('arrinit'))

    def e_sizeof(self, fn, frame, i, n, st):
        return self.set(st, i, ('sizeof', fn.ty(n.get('at', -1))))

    def e_typeid(self, fn, frame, i, n, st):
        return self.set(st, i, ('typeid', fn.ty(n.get('at', -1))))

    def e_throw(self, fn, frame, i, n, st):
        self.ev(st, Ev('throw', fn, i))
        st.n = -1
        return [st]

    def e_lam(self, fn, frame, i, n, st):
        caps = []
        for cp in n.get('caps', []):
            if cp.get('this'):
                caps.append(('this', ('&', self.this(st))))
            elif cp.get('d') is not None:
                outer = st.vals.get('cap')
                if outer is not None and cp['d'] in outer:
                    loc = outer[cp['d']]
                else:
                    loc = st.env.get((frame, cp['d'])) or \
                        ('v', frame, cp['d'], cp['n'])
                if cp.get('ref'):
                    caps.append((cp['d'], ('&', loc)))
                else:
                    t = ('tmp', frame, 'cap%d_%d' % (i, cp['d']))
                    self.store(st, t, self.load(st, loc), quiet=True)
                    caps.append((cp['d'], ('&', t)))
        return self.set(st, i, ('lam', n['fn']['u'] if isinstance(n['fn'], dict)
                                else n['fn'], tuple(caps),
                                ('&', self.this(st))))

    def e_decl(self, fn, frame, i, n, st):
        for v in n['v']:
            if v.get('static'):
                loc = ('g', fn.q + '::' + v['n'])
                if 'e' in v and v['e'] >= 0:
                    # a static keeps whatever it was given first
                    st.env[(frame, v['d'])] = loc
                continue
            key = (frame, v['d'])
            st.env.pop(key, None)
            loc = ('v', frame, v['d'], v['n'])
            if 'e' not in v or v['e'] < 0:
                self.store(st, loc, ('uninit', loc), quiet=True)
                continue
            e = v['e']
            if v.get('isref'):
                st.env[key] = self.lloc(fn, st, e)
                continue
            val = self.rvalue(fn, st, e)
            self.store(st, loc, val, fn, i)
        return [st]

    def e_ret(self, fn, frame, i, n, st):
        if n.get('e', -1) >= 0:
            e = n['e']
            rt = fn.ty(fn.d['ret']) if isinstance(fn.d.get('ret'), int) else ''
            if rt.endswith('&'):
                st.ret = ('&', self.lloc(fn, st, e))
            else:
                st.ret = self.rvalue(fn, st, e)
        else:
            st.ret = ('void',)
        self.ev(st, Ev('return', fn, i, val=st.ret))
        return [st]

    def e_delete(self, fn, frame, i, n, st):
        v = self.ptr(fn, st, n['e'])
        self.ev(st, Ev('delete', fn, i, loc=self.deref(v)))
        return self.set(st, i, ('void',))

    def e_new(self, fn, frame, i, n, st):
        self.cnt += 1
        loc = ('heap', self.cnt, fn.ty(n.get('et', -1)))
        e = n.get('e', -1)
        if e is not None and e >= 0:
            v = self.rvalue(fn, st, e)
            self.store(st, loc, v, quiet=True)
        self.ev(st, Ev('new', fn, i, loc=loc))
        return self.set(st, i, ('&', loc))

    def e_omp(self, fn, frame, i, n, st):
        return [st]

    def e_other(self, fn, frame, i, n, st):
        return self.set(st, i, self.fresh(n.get('sc', 'other')))

    # -------------------------------------------------------------- ctors
    def e_ctor(self, fn, frame, i, n, st):
        f = n.get('fn') or {}
        t = bty(fn.ty(n['t']))
        b = base(t)
        args = n.get('a', [])
        if self.model:
            r = self.model(self, fn, frame, i, n, st)
            if r is not None:
                return r
        if b in LOCKS:
            return self.acquire_ctor(fn, frame, i, n, st, b, args)
        if n.get('copy') or (len(args) == 1 and bty(fn.node_ty(args[0])) == t and
                             t not in SCALARS):
            return self.set(st, i, self.rvalue(fn, st, args[0]))
        cal = self.p.fns.get(f.get('u'))
        if b in SMART or b.endswith('optional'):
            if not args:
                return self.set(st, i, NULL)
            a0 = args[0]
            v = self.rvalue(fn, st, a0)
            at = bty(fn.node_ty(a0))
            if 'optional' in b:
                if base(at) == 'boost::none_t':
                    return self.set(st, i, NULL)
                if base(at) == b:
                    return self.set(st, i, v)
                self.cnt += 1
                h = ('heap', self.cnt, at)
                self.store(st, h, v, quiet=True)
                return self.set(st, i, ('&', h))
            if at == 'std::nullptr_t':
                return self.set(st, i, NULL)
            return self.set(st, i, v)
        if b in STRING:
            if not args:
                return self.set(st, i, c(''))
            if len(args) <= 2:
                return self.set(st, i, self.rvalue(fn, st, args[0]))
        if b in CONT:
            return self.set(st, i, self.cont_ctor(fn, st, t, b, args, n))
        if b in ITER:
            if args:
                return self.set(st, i, self.rvalue(fn, st, args[0]))
        if b == 'std::pair' and len(args) == 2:
            return self.set(st, i, ('rec', ('init', 'pair'), (
                (('f', 'first'), self.rvalue(fn, st, args[0])),
                (('f', 'second'), self.rvalue(fn, st, args[1])))))
        if b == 'std::function' and len(args) >= 1:
            return self.set(st, i, self.rvalue(fn, st, args[0]))
        if b in ATOMIC:
            return self.set(st, i, self.rvalue(fn, st, args[0]) if args else
                            ('uninit', ('atomic',)))
        if eigen(t):
            vs = [self.rvalue(fn, st, a) for a in args]
            scal = [is_scalar(fn.node_ty(a)) for a in args]
            if not args:
                return self.set(st, i, ('uninit', ('eigen', i, frame)))
            if 'Quaternion' in b or 'AngleAxis' in b or 'Transform' in b or \
                    'Translation' in b:
                if len(vs) == 1:
                    return self.set(st, i, ('call', b.split('::')[-1], vs[0]))
                return self.set(st, i, ('call', b.split('::')[-1]) + tuple(vs))
            if all(scal) and len(vs) >= 2 and not dyn_eigen(t):
                return self.set(st, i, ('vec',) + tuple(vs))
            if len(vs) == 1 and not scal[0]:
                return self.set(st, i, vs[0])
            return self.set(st, i, ('call', 'Eigen::ctor') + tuple(vs))
        if cal is not None and self.may_inline(cal, f):
            loc = ('tmp', frame, i)
            self.kill(st, loc)
            st.store.pop(loc, None)
            res = self.call_inline(fn, frame, i, st, cal, loc,
                                   self.arg_vals(fn, st, cal, args), ctor=True)
            for s, v in res:
                s.vals[i] = self.full(s, loc)
            return [s for s, v in res]
        vs = tuple(self.rvalue(fn, st, a) for a in args)
        argl = tuple(self.val(fn, st, a) for a in args)
        self.ev(st, Ev('call', fn, i, q=f.get('q', t), n=f.get('n', ''), c=b,
                       args=vs, argl=argl, x='ctor', frame=frame))
        self.havoc_args(fn, st, f, args)
        if b.startswith('static_map') or n.get('zero'):
            if not args:
                return self.set(st, i, ('zero',) if n.get('zero') else
                                ('obj', t, self.fresh()[1]))
        return self.set(st, i, ('obj', t, self.fresh()[1]) + vs)

    def cont_ctor(self, fn, st, t, b, args, n):
        if not args:
            return ('cont', b, ZERO)
        v0 = self.rvalue(fn, st, args[0])
        a0 = bty(fn.node_ty(args[0]))
        if is_scalar(a0):
            if len(args) >= 2 and not bty(fn.node_ty(args[1])).startswith(
                    'std::allocator'):
                v1 = self.rvalue(fn, st, args[1])
                return ('rec', ('cont', b, v0), ((('el',), ('all', v1)),))
            return ('cont', b, v0)
        if len(args) >= 2 and v0[0] == 'it':
            v1 = self.rvalue(fn, st, args[1])
            if v1[0] == 'it' and v1[1] == v0[1]:
                sz = T.sub(v1[2], v0[2])
                whole = v0[2] == ZERO
                return ('slice', v0[1], v0[2], v1[2]) if not whole else \
                    ('rec', ('cont', b, sz), ())
        if v0[0] == 'rec' or a0.startswith('std::initializer_list'):
            return v0
        return ('obj', t, self.fresh()[1], v0)

    # -------------------------------------------------------------- locks
    def acquire_ctor(self, fn, frame, i, n, st, b, args):
        mode = LOCKS[b]
        if not args:
            return self.set(st, i, ('lock', mode, None, True))
        v = self.val(fn, st, args[0])
        t0 = bty(fn.node_ty(args[0]))
        if t0.endswith('*'):
            m = self.deref(v)
        else:
            m = v[1] if v[0] == '&' else ('*', v)
        if mode == 'up':    # upgrade_to_unique_lock(upgrade_lock&)
            lv = self.load(st, m)
            mm = lv[2] if lv[0] == 'lock' else m
            self.acquire(st, mm, 'x', fn, i, upgrade=True)
            return self.set(st, i, ('lock', 'x', mm, True))
        if len(args) > 1:
            t1 = bty(fn.node_ty(args[1]))
            if 'defer_lock' in t1:
                return self.set(st, i, ('lock', mode, m, False))
            if 'try_to_lock' in t1:
                return self.set(st, i, ('lock', 'try', m, False))
            if 'adopt_lock' in t1:
                return self.set(st, i, ('lock', mode, m, True))
        self.acquire(st, m, mode, fn, i)
        return self.set(st, i, ('lock', mode, m, True))

    def acquire(self, st, m, mode, fn, i, upgrade=False):
        self.ev(st, Ev('acquire', fn, i, loc=m, x=mode))
        st.locks = st.locks + ((m, mode),)
        if self.on_sync and not upgrade:
            self.on_sync(self, st, m, 'acquire')

    def release(self, st, v, fn, i, loc=None):
        if v[0] == 'lock' and not v[3]:
            return
        m, mode = v[2], v[1]
        ls = list(st.locks)
        for k in range(len(ls) - 1, -1, -1):
            if ls[k] == (m, mode):
                del ls[k]
                break
        st.locks = tuple(ls)
        self.ev(st, Ev('release', fn, i, loc=m, x=mode))
        if self.on_sync and m not in [l[0] for l in st.locks]:
            self.on_sync(self, st, m, 'release')

    # -------------------------------------------------------------- calls
    def may_inline(self, cal, f):
        if cal is None or cal.nocfg:
            return False
        if len(self.stack) > self.depth or cal.id in self.stack:
            return False
        if cal.q in self.opaque or cal.q.split('::')[-1] in self.opaque:
            return False
        if cal.file.startswith('third_parties'):
            return False
        if self.inline_pred is not None:
            return self.inline_pred(cal)
        return True

    def arg_vals(self, fn, st, cal, args):
        out = []
        for p, a in zip(cal.params, args):
            if p.get('isref'):
                out.append(('&', self.lloc(fn, st, a)))
            else:
                out.append(self.rvalue(fn, st, a))
        return out

    def call_inline(self, fn, frame, i, st, cal, this, argv, ctor=False,
                    cap=None):
        self.callsites += 1
        fr = self.new_frame()
        self.bind_params(cal, fr, st, argv)
        self.ev(st, Ev('enter', cal, -1, q=cal.q, x=(fn, i), obj=this,
                       args=tuple(argv)))
        saved = st.vals
        if cap is not None:
            res = self.exec_fn_cap(cal, fr, st, this, cap)
        else:
            res = self.exec_fn(cal, fr, st, this)
        for s, v in res:
            self.ev(s, Ev('leave', cal, -1, q=cal.q, res=v, x=(fn, i)))
        return res

    def exec_fn_cap(self, fn, frame, st, this, cap):
        if fn.nocfg:
            return [(st, self.fresh('nocfg'))]
        self.visited_fns.add(fn.id)
        saved = st.vals
        st.vals = {'this': this, 'frame': frame, 'cap': cap}
        self.stack.append(fn.id)
        try:
            exits, backs = self.region(fn, frame, fn.entry, [st], None)
        finally:
            self.stack.pop()
        res = []
        for (b, s) in exits:
            v = s.ret
            s.ret = None
            s.vals = dict(saved)
            res.append((s, v if v is not None else ('void',)))
        return res

    def call_lambda(self, fn, frame, i, st, lam, argv):
        cal = self.p.fns.get(lam[1])
        if cal is None or cal.nocfg or cal.id in self.stack or \
                len(self.stack) > self.depth:
            return None
        cap = {}
        this = lam[3][1]
        for d, v in lam[2]:
            if d == 'this':
                this = v[1]
            else:
                cap[d] = v[1]
        return self.call_inline(fn, frame, i, st, cal, this, argv, cap=cap)

    def havoc_args(self, fn, st, f, args):
        pm = f.get('pm') or []
        for k, a in enumerate(args):
            m = pm[k] if k < len(pm) else 0
            if m == 2:
                v = self.val(fn, st, a)
                if fn.nodes[a].get('lv') and v[0] == '&' and \
                        v[1][0] not in ('strlit',):
                    if v[1][0] == 'g' and 'std::' in str(v[1][1]):
                        continue
                    self.havoc(st, v[1], 'out:%s' % f.get('n'), fn, a)
            elif m == 4:
                v = self.rvalue(fn, st, a)
                if v[0] == '&' and v[1][0] != 'strlit':
                    self.havoc(st, v[1], 'out:%s' % f.get('n'), fn, a)

    def e_call(self, fn, frame, i, n, st):
        f = n.get('fn')
        args = n.get('a', [])
        if self.model:
            r = self.model(self, fn, frame, i, n, st)
            if r is not None:
                return r
        if f is None:
            return self.call_value(fn, frame, i, n, st)
        from . import models
        r = models.call(self, fn, frame, i, n, st, f, args)
        if r is not None:
            return r
        cal = self.p.fns.get(f.get('u'))
        obj = n.get('obj', -1)
        this = None
        if obj is not None and obj >= 0:
            if n.get('arrow'):
                this = self.deref(self.ptr(fn, st, obj))
            else:
                this = self.lloc(fn, st, obj)
        if f.get('virt') and not n.get('qual'):
            cal = self.resolve_virtual(fn, st, f, cal, this, obj)
        # operator() on a lambda object
        if obj is not None and obj >= 0 and f['n'] == 'operator()':
            v = self.load(st, this)
            if v[0] == 'lam':
                lam = self.p.fns.get(v[1])
                r = self.call_lambda(fn, frame, i, st, v, self.arg_vals(
                    fn, st, lam, args)) if lam else None
                if r is not None:
                    return self.finish(fn, i, n, r)
        if cal is not None and self.may_inline(cal, f):
            argv = self.arg_vals(fn, st, cal, args)
            if f.get('n') == 'operator=' and f.get('implicit'):
                pass
            if f['n'] in self.effects:
                return self.effect_call(fn, frame, i, n, st, f, cal, this, argv)
            self.ev(st, Ev('callin', fn, i, q=f['q'], n=f['n'], c=f.get('c'),
                           obj=this, args=tuple(argv), frame=frame))
            r = self.call_inline(fn, frame, i, st, cal, this, argv)
            return self.finish(fn, i, n, r)
        return self.opaque_call(fn, frame, i, n, st, f, args, this)

    def finish(self, fn, i, n, r):
        out = []
        for s, v in r:
            if n.get('lv') and v[0] != '&':
                v = ('&', ('*', v)) if v[0] != 'void' else v
            s.vals[i] = v
            out.append(s)
        return out

    def resolve_virtual(self, fn, st, f, cal, this, obj):
        if self.virt is not None:
            r = self.virt(self, f, cal, this)
            if r is not None:
                return r
        if this is not None and this[0] == 'heap':
            ty = base(bty(this[2]))
            r = self.find_override(ty, f['n'], f)
            if r is not None:
                return r
        if this == ('this',) and getattr(self, 'this_class', None):
            r = self.find_override(self.this_class, f['n'], f)
            if r is not None:
                return r
        # unknown dynamic type: only follow when nothing overrides it
        if cal is not None:
            for d in self.p.derived(f.get('c') or ''):
                for m in self.p.records[d]['methods']:
                    if m['n'] == f['n']:
                        return None
        return cal

    def find_override(self, cls, name, f):
        r = self.p.records.get(cls)
        if r is None:
            return None
        for m in r['methods']:
            if m['n'] == name and m['u'] in self.p.fns:
                return self.p.fns[m['u']]
        for b in self.p.bases(r):
            x = self.find_override(base(b), name, f)
            if x is not None:
                return x
        return None

    def opaque_call(self, fn, frame, i, n, st, f, args, this):
        vs = tuple(self.rvalue(fn, st, a) for a in args)
        argl = tuple(self.val(fn, st, a) for a in args)
        pm = f.get('pm') or []
        pure = all(m in (0, 1, 3) for m in pm)
        if this is not None and not f.get('const') and not f.get('static'):
            pure = False
        name = f['n']
        if any(v[0] == 'lam' for v in vs):
            pure = False
        e = Ev('call', fn, i, q=f['q'], n=name, c=f.get('c'), obj=this, args=vs,
               argl=argl, frame=frame)
        if pure and name not in NONDET:
            a = vs
            if this is not None:
                a = (self.load(st, this),) + vs
            res = ('call', f['q']) + a
        else:
            res = None
        self.ev(st, e)
        if f.get('noret'):
            st.n = -1
        if this is not None and not f.get('const') and not f.get('static') and \
                this[0] not in ('g',):
            self.havoc(st, this, '%s' % name, fn, i)
        self.havoc_args(fn, st, f, args)
        for v in vs:
            if v[0] == 'lam':
                self.lambda_effects(fn, frame, i, st, v)
        if res is None:
            res = ('res', self.fresh()[1], f['q'])
        e.res = res
        t = bty(fn.ty(n['t'])) if 't' in n else ''
        if n.get('lv'):
            res = ('&', ('*', res))
        return self.set(st, i, res)

    def effect_call(self, fn, frame, i, n, st, f, cal, this, argv):
        """follow a repository callee only for what it may write"""
        o0 = len(self.outs)
        s = st.copy()
        log = set()
        mark = self.cnt
        self.wlogs.append(log)
        self.mute += 1
        try:
            self.call_inline(fn, frame, i, s, cal, this, argv)
        finally:
            self.mute -= 1
            self.wlogs.pop()
            del self.outs[o0:]
        W = {g for g in self.generalise(log, frame)
             if not self.varying(g, mark, None) and self.exists(g, st)}
        e = Ev('call', fn, i, q=f['q'], n=f['n'], c=f.get('c'), obj=this,
               args=tuple(argv), argl=tuple(argv), frame=frame, x='effects')
        self.ev(st, e)
        for w in self.wlogs:
            w |= W
        self.forget(st, W, st.copy(), {}, 0)
        e.res = res = ('res', self.fresh()[1], f['q'])
        return self.set(st, i, ('&', ('*', res)) if n.get('lv') else res)

    def lambda_effects(self, fn, frame, i, st, lam):
        """a callee may run the lambda any number of times"""
        cal = self.p.fns.get(lam[1])
        if cal is None or cal.nocfg or cal.id in self.stack:
            return
        W = set()
        o0 = len(self.outs)
        for rnd in range(6):
            mark = self.cnt
            s = st.copy()
            self.forget(s, W, st, {}, 0)
            log = set()
            self.wlogs.append(log)
            self.mute += 1
            try:
                self.call_lambda(fn, frame, i, s, lam, [None] * len(cal.params))
            finally:
                self.mute -= 1
                self.wlogs.pop()
                del self.outs[o0:]
            new = {g for g in self.generalise(log, frame)
                   if not any(T.is_prefix(w, g) for w in W)
                   and not self.varying(g, mark, None) and self.exists(g, st)}
            if not new:
                break
            W |= new
        for w in self.wlogs:
            w |= W
        self.forget(st, W, st.copy(), {}, 0)

    def call_value(self, fn, frame, i, n, st):
        cal = n.get('cal', -1)
        v = self.rvalue(fn, st, cal) if cal is not None and cal >= 0 else ('?',)
        args = n.get('a', [])
        vs = tuple(self.rvalue(fn, st, a) for a in args)
        self.ev(st, Ev('call', fn, i, q='(indirect)', n='(indirect)', obj=None,
                       args=vs, val=v, frame=frame))
        res = ('res', self.fresh()[1], 'indirect')
        if n.get('lv'):
            res = ('&', ('*', res))
        return self.set(st, i, res)


def dyn_eigen(t):
    return 'X' in t or '-1' in t or 'Dynamic' in t


def blk_disjoint(a, b):
    def rng(x):
        if x[0] == 'blk':
            v = [T.num(y) for y in x[1:5]]
        elif x[0] == 'pair':
            v = [T.num(x[1]), T.num(x[2]), 1, 1]
        elif T.num(x) is not None:
            v = [T.num(x), 0, 1, 1]        # of a column
        else:
            return None
        return None if any(y is None for y in v) else v
    ra, rb = rng(a), rng(b)
    if ra is None or rb is None:
        return False
    return (ra[0] + ra[2] <= rb[0] or rb[0] + rb[2] <= ra[0] or
            ra[1] + ra[3] <= rb[1] or rb[1] + rb[3] <= ra[1])
