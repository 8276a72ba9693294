"""Effect models of library calls the repository uses."""
from . import terms as T
from .ir import base
from .terms import c, TRUE, FALSE, NULL, ZERO, ONE


def call(I, fn, frame, i, n, st, f, args):
    from .interp import (SMART, CONT, ITER, ATOMIC, LOCKS, MUTEX, STRING, MAPS,
                         Ev, bty, is_scalar, eigen)
    name = f['n']
    cls = f.get('c') or ''
    q = f['q']
    cb = base(cls)
    obj = n.get('obj', -1)
    has_obj = obj is not None and obj >= 0

    def out(v):
        st.vals[i] = v
        return [st]

    def oloc():
        if n.get('arrow'):
            return I.deref(I.ptr(fn, st, obj))
        return I.lloc(fn, st, obj)

    def oval():
        if n.get('arrow'):
            return I.load(st, I.deref(I.ptr(fn, st, obj)), fn, obj)
        return I.ptr(fn, st, obj)

    def rv(k):
        return I.rvalue(fn, st, args[k])

    def event(**kw):
        e = Ev('call', fn, i, q=q, n=name, c=cls, frame=frame, **kw)
        I.ev(st, e)
        return e

    # conversions between a class and its base / user conversions on pointers
    if q in ('std::move', 'std::forward', 'std::addressof', 'std::as_const',
             'std::ref', 'std::cref', 'boost::ref', 'std::static_pointer_cast',
             'std::dynamic_pointer_cast', 'std::const_pointer_cast',
             'boost::move', 'boost::forward', 'boost::make_optional',
             'std::__addressof'):
        if q == 'boost::make_optional':
            I.cnt += 1
            h = ('heap', I.cnt, '')
            I.store(st, h, rv(0), quiet=True)
            return out(('&', h))
        v = I.val(fn, st, args[0])
        return out(v)
    if q in ('std::make_shared', 'boost::make_shared', 'std::make_unique',
             'std::allocate_shared', 'boost::allocate_shared'):
        if 'allocate' in q:
            args = args[1:]
        I.cnt += 1
        ta = f.get('ta') or []
        t0 = ''
        rt = bty(fn.ty(n['t']))
        if '<' in rt:
            t0 = inner(rt)
        h = ('heap', I.cnt, t0)
        vs = tuple(rv(k) for k in range(len(args)))
        r = None
        rec = I.p.records.get(base(t0))
        if rec is not None:
            if len(args) == 1 and base(bty(fn.node_ty(args[0]))) == base(t0):
                I.store(st, h, vs[0], quiet=True)
            else:
                ctors = [I.p.fns[m['u']] for m in rec['methods']
                         if m['u'] in I.p.fns and
                         I.p.fns[m['u']].kind == 'ctor' and
                         len(I.p.fns[m['u']].params) == len(args)]
                if len(ctors) == 1 and I.may_inline(ctors[0], f):
                    argv = [('&', I.lloc(fn, st, a)) if p.get('isref') else
                            I.rvalue(fn, st, a)
                            for p, a in zip(ctors[0].params, args)]
                    I.ev(st, Ev('new', fn, i, loc=h))
                    r = I.call_inline(fn, frame, i, st, ctors[0], h, argv)
                else:
                    I.store(st, h, ('obj', t0, I.fresh()[1]) + vs, quiet=True)
        else:
            I.store(st, h, ('obj', t0, I.fresh()[1]) + vs, quiet=True)
        if r is not None:
            for s, v in r:
                s.vals[i] = ('&', h)
            return [s for s, v in r]
        I.ev(st, Ev('new', fn, i, loc=h))
        return out(('&', h))
    if q in ('std::make_pair',):
        return out(('rec', ('init', 'pair'), (
            (('f', 'first'), rv(0)), (('f', 'second'), rv(1)))))
    if q == 'std::swap' or (name == 'swap' and has_obj and len(args) == 1) or \
            q == 'boost::swap':
        if has_obj:
            a = oloc()
            b = I.lloc(fn, st, args[0])
        else:
            a, b = I.lloc(fn, st, args[0]), I.lloc(fn, st, args[1])
        va, vb = I.full(st, a), I.full(st, b)
        event(obj=a, args=(vb,), argl=(('&', b),))
        I.store(st, a, vb, fn, i)
        I.store(st, b, va, fn, i)
        return out(('void',))
    # glog comparison helpers: null when the comparison holds
    if q.startswith('google::Check_') or q.startswith('google::CheckNotNull'):
        ops = {'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=', 'GT': '>',
               'GE': '>='}
        key = q[len('google::Check_'):][:2]
        if key in ops and len(args) >= 2:
            t = I.compare(ops[key], I.rvalue(fn, st, args[0]),
                          I.rvalue(fn, st, args[1]))
            d = I.decide(st, t)
            if d is not None:
                t = c(d)
            return out(('chk', t))
    if q.startswith('google::GetReferenceableValue'):
        return out(I.val(fn, st, args[0]))
    if q == 'google::CheckOpString::operator bool':
        v = oval()
        if v[0] == 'obj' and len(v) > 3:
            v = v[3]
        if v[0] == 'chk':
            return out(T.not_(v[1]))
    if q.startswith('google::'):
        if n.get('lv'):
            return out(('&', ('g', 'google::stream')))
        return out(('void',)) if bty(fn.ty(n['t'])) == 'void' else \
            out(('obj', q, I.fresh()[1]))

    # -------------------------------------------------------- smart pointers
    if cb in SMART and has_obj:
        if name in ('operator->', 'get', 'get_ptr'):
            return out(oval())
        if name in ('operator*', 'value', 'get_value'):
            return out(('&', I.deref(oval())))
        if name in ('operator bool', 'is_initialized', 'has_value',
                    'operator_bool'):
            return out(T.not_(T.cmp('==', NULL, oval())))
        if name == 'operator!':
            return out(T.cmp('==', NULL, oval()))
        if name == 'reset':
            loc = oloc()
            v = rv(0) if args else NULL
            event(obj=loc, args=(v,))
            I.store(st, loc, v, fn, i)
            return out(('void',))
        if name == 'operator=':
            loc = oloc()
            at = bty(fn.node_ty(args[0]))
            v = I.rvalue(fn, st, args[0])
            if 'optional' in cb and 'optional' not in at and \
                    'none' not in at and v != NULL:
                I.cnt += 1
                h = ('heap', I.cnt, at)
                I.store(st, h, v, quiet=True)
                v = ('&', h)
            elif 'none' in at or 'nullptr' in at:
                v = NULL
            I.store(st, loc, v, fn, i)
            return out(('&', loc))
        if name == 'release':
            loc = oloc()
            v = I.load(st, loc)
            I.store(st, loc, NULL, fn, i)
            return out(v)
        if name == 'operator[]':
            v = oval()
            return out(('&', ('[]', I.deref(v), rv(0))))
        if name in ('use_count', 'unique'):
            return out(I.fresh(name))
        if name == 'lock':
            return out(oval())
    if name in ('operator==', 'operator!=', 'operator<') and not has_obj and \
            len(args) == 2:
        t0, t1 = base(bty(fn.node_ty(args[0]))), base(bty(fn.node_ty(args[1])))
        ptrish = lambda t: t in SMART or t == 'std::nullptr_t'
        if ptrish(t0) and ptrish(t1) or t0 in ITER or t1 in ITER or \
                t0 in STRING or t1 in STRING:
            return out(I.compare(name[8:], rv(0), rv(1)))
    # ------------------------------------------------------------ iterators
    if cb in ITER and has_obj or (cb == 'std::operator' and False):
        v = oval()
        if name == 'operator*':
            return out(('&', I.deref(v)))
        if name in ('operator->', 'base'):
            return out(('&', I.deref(v)) if name == 'operator->' else v)
        if name in ('operator++', 'operator--'):
            loc = oloc()
            new = I.shift(v, 1 if name == 'operator++' else -1)
            I.store(st, loc, new, fn, i)
            return out(v if args else ('&', loc))
        if name in ('operator+=', 'operator-='):
            loc = oloc()
            d = rv(0)
            I.store(st, loc, I.shift(v, d if name == 'operator+=' else
                                     T.neg(d)), fn, i)
            return out(('&', loc))
        if name == 'operator+':
            return out(I.shift(v, rv(0)))
        if name == 'operator-':
            b = rv(0)
            return out(I.arith('-', v, b, ''))
        if name in ('operator==', 'operator!=', 'operator<', 'operator<=',
                    'operator>', 'operator>='):
            return out(I.compare(name[8:], v, rv(0)))
        if name == 'operator=':
            loc = oloc()
            I.store(st, loc, rv(0), fn, i)
            return out(('&', loc))
        if name == 'operator[]':
            return out(('&', I.deref(I.shift(v, rv(0)))))
    if not has_obj and name in ('operator-', 'operator+') and len(args) == 2 \
            and base(bty(fn.node_ty(args[0]))) in ITER:
        return out(I.arith(name[8:], rv(0), rv(1), ''))
    if q in ('std::next', 'std::prev'):
        k = rv(1) if len(args) > 1 else ONE
        return out(I.shift(rv(0), k if q == 'std::next' else T.neg(k)))
    if q == 'std::advance':
        loc = I.lloc(fn, st, args[0])
        I.store(st, loc, I.shift(I.load(st, loc), rv(1)), fn, i)
        return out(('void',))
    if q == 'std::distance':
        return out(I.arith('-', rv(1), rv(0), ''))
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend'):
        L = I.lloc(fn, st, args[0])
        return out(('it', L, ZERO if 'begin' in q else size(I, st, L)))

    # ------------------------------------------------------------- strings
    if cb in STRING and has_obj:
        if name in ('c_str', 'data', 'str'):
            return out(oval())
        if name in ('operator=', 'assign') and len(args) == 1:
            loc = oloc()
            I.store(st, loc, rv(0), fn, i)
            return out(('&', loc))
        if name in ('operator+=', 'append', 'push_back') and len(args) == 1:
            loc = oloc()
            v = concat(I.load(st, loc), rv(0))
            I.store(st, loc, v, fn, i)
            return out(('&', loc))
        if name == 'empty':
            return out(T.cmp('==', oval(), c('')))
        if name in ('size', 'length'):
            return out(('call', 'length', oval()))
        if name == 'compare' and len(args) == 1:
            return out(('call', 'strcmp', oval(), rv(0)))
        if name in ('clear',):
            loc = oloc()
            I.store(st, loc, c(''), fn, i)
            return out(('void',))
        if name in ('operator[]', 'at', 'back', 'front', 'find', 'rfind',
                    'substr', 'find_last_of', 'find_first_of', 'begin', 'end'):
            if name == 'back':
                return out(char_at(I, st, n, oval(), ('last',)))
            if name in ('operator[]', 'at'):
                x = rv(0)
                v = oval()
                if x == T.sub(('call', 'length', v), ONE):
                    return out(char_at(I, st, n, v, ('last',)))
            r = ('call', 'str.' + name, oval()) + tuple(
                rv(k) for k in range(len(args)))
            if n.get('lv'):
                return out(('&', ('*', r)))
            return out(r)
    if q == 'std::operator+' and len(args) == 2:
        return out(concat(rv(0), rv(1)))
    if q in ('__builtin_expect', '__builtin_expect_with_probability'):
        return out(rv(0))
    if q in ('std::to_string', 'std::__cxx11::to_string'):
        return out(('call', 'to_string', rv(0)))

    # ---------------------------------------------------------- containers
    if cb in CONT and has_obj:
        r = container(I, fn, frame, i, n, st, f, args, cb, name, out, oloc, rv,
                      event, bty, is_scalar, MAPS)
        if r is not None:
            return r
    # -------------------------------------------------------------- atomics
    if cb in ATOMIC and has_obj:
        loc = oloc()
        if name in ('load',) or name.startswith('operator ') and not args:
            v = I.load(st, loc)
            if not (I.volatile and not I.volatile(loc)):
                v = ('at', I.fresh()[1], loc)
            if I.volatile is None:
                v = I.load(st, loc)
            I.ev(st, Ev('aload', fn, i, loc=loc, val=v))
            return out(v)
        if name in ('store', 'operator='):
            v = rv(0)
            I.store(st, loc, v, quiet=True)
            I.ev(st, Ev('astore', fn, i, loc=loc, val=v))
            return out(v if name == 'operator=' else ('void',))
        if name in ('exchange', 'test_and_set'):
            old = I.load(st, loc)
            v = rv(0) if name == 'exchange' and args else TRUE
            I.store(st, loc, v, quiet=True)
            I.ev(st, Ev('astore', fn, i, loc=loc, val=v, x='rmw'))
            return out(old)
        if name in ('fetch_add', 'fetch_sub', 'operator++', 'operator--',
                    'operator+=', 'operator-='):
            old = I.load(st, loc)
            d = rv(0) if args and name not in ('operator++', 'operator--') else ONE
            new = T.add(old, d) if name in ('fetch_add', 'operator++',
                                            'operator+=') else T.sub(old, d)
            I.store(st, loc, new, quiet=True)
            I.ev(st, Ev('astore', fn, i, loc=loc, val=new, x='rmw'))
            post = name in ('fetch_add', 'fetch_sub') or \
                (name in ('operator++', 'operator--') and args)
            return out(old if post else new)
        if name in ('compare_exchange_strong', 'compare_exchange_weak'):
            I.havoc(st, loc, 'cas')
            I.ev(st, Ev('astore', fn, i, loc=loc, val=None, x='cas'))
            return out(I.fresh('cas'))
    # ---------------------------------------------------------------- locks
    if cb in LOCKS and has_obj or cb == 'static_map::common::Mutex::Locker':
        loc = oloc()
        v = I.load(st, loc)
        if name == 'unlock' and v[0] == 'lock':
            I.release(st, v, fn, i)
            I.store(st, loc, v[:3] + (False,), quiet=True)
            return out(('void',))
        if name in ('lock', 'try_lock') and v[0] == 'lock':
            I.acquire(st, v[2], v[1], fn, i)
            I.store(st, loc, v[:3] + (True,), quiet=True)
            return out(('void',) if name == 'lock' else I.fresh('try_lock'))
        if name == 'owns_lock' and v[0] == 'lock':
            return out(c(v[3]))
        if name in ('Await', 'AwaitWithTimeout', 'wait'):
            return wait(I, fn, frame, i, n, st, v, args, event, out,
                        timed='Timeout' in name)
    if cb in MUTEX and has_obj:
        loc = oloc()
        if name in ('lock', 'lock_shared', 'lock_upgrade'):
            I.acquire(st, loc, {'lock': 'x', 'lock_shared': 's',
                                'lock_upgrade': 'u'}[name], fn, i)
            return out(('void',))
        if name in ('unlock', 'unlock_shared', 'unlock_upgrade'):
            m = {'unlock': 'x', 'unlock_shared': 's', 'unlock_upgrade': 'u'}[name]
            I.release(st, ('lock', m, loc, True), fn, i)
            return out(('void',))
    if cb in ('std::condition_variable', 'std::_V2::condition_variable_any',
              'std::condition_variable_any'):
        loc = oloc()
        if name.startswith('wait'):
            lv = I.load(st, I.lloc(fn, st, args[0]))
            return wait(I, fn, frame, i, n, st, lv, args[1:], event, out,
                        timed=name != 'wait', cv=loc)
        if name.startswith('notify'):
            event(obj=loc, args=())
            return out(('void',))
    # --------------------------------------------------------- std::function
    if cb == 'std::function' and has_obj:
        loc = oloc()
        if name == 'operator()':
            v = I.load(st, loc)
            if v[0] == 'lam':
                lam = I.p.fns.get(v[1])
                if lam is not None:
                    r = I.call_lambda(fn, frame, i, st, v,
                                      I.arg_vals(fn, st, lam, args))
                    if r is not None:
                        return I.finish(fn, i, n, r)
            vs = tuple(rv(k) for k in range(len(args)))
            event(obj=loc, args=vs, val=v)
            for k, a in enumerate(args):
                if fn.nodes[a].get('lv') and bty(fn.node_ty(a)).find('const') < 0:
                    pass
            return out(('res', I.fresh()[1], 'std::function'))
        if name == 'operator=':
            I.store(st, loc, rv(0), fn, i)
            return out(('&', loc))
        if name == 'operator bool':
            v = I.load(st, loc)
            if v[0] in ('lam', 'bind', 'fn'):
                return out(TRUE)
            return out(T.not_(T.cmp('==', NULL, v)))
    if q in ('std::bind', 'boost::bind'):
        return out(('bind',) + tuple(rv(k) for k in range(len(args))))

    # ------------------------------------------------------------------ math
    if q in ('std::abs', 'abs', 'std::fabs', 'fabs', 'fabsf', 'labs'):
        v = rv(0)
        if T.num(v) is not None:
            return out(c(abs(T.num(v))))
        if v[0] == 'call' and v[1] == 'abs':
            return out(v)
        # |a-b| == |b-a|
        w = T.neg(v)
        return out(('call', 'abs', min(v, w, key=repr)))
    if q in ('std::sqrt', 'sqrt', 'sqrtf', 'std::sqrtf'):
        return out(('call', 'sqrt', rv(0)))
    if q in ('std::max', 'std::min', 'std::fmax', 'std::fmin', 'fmax', 'fmin') \
            and len(args) == 2:
        a, b = rv(0), rv(1)
        op = 'max' if 'max' in q else 'min'
        r = ('call', op) + tuple(sorted((a, b), key=repr))
        d = I.decide(st, T.cmp('<', a, b))
        if d is not None:
            r = (b if d else a) if op == 'max' else (a if d else b)
        if n.get('lv'):
            I.cnt += 1
            t = ('tmp', frame, 'mm%d' % I.cnt)
            I.store(st, t, r, quiet=True)
            return out(('&', t))
        return out(r)
    if q in ('std::floor', 'floor', 'floorf', 'std::ceil', 'ceil', 'std::round',
             'round', 'lround', 'std::lround', 'std::log', 'log', 'exp',
             'std::exp', 'std::sin', 'std::cos', 'sin', 'cos', 'std::atan2',
             'atan2', 'std::acos', 'acos', 'std::tan', 'tan', 'std::asin',
             'std::pow', 'pow', 'std::isnan', 'std::isfinite', 'std::isinf',
             'std::fmod', 'fmod', 'std::hypot', 'hypot', 'std::trunc', 'trunc',
             'std::lrint', 'lrint', 'std::log2', 'std::log10'):
        nm = q.split('::')[-1]
        if nm.endswith('f') and nm[:-1] in ('floor', 'ceil', 'round'):
            nm = nm[:-1]
        if nm == 'pow' and len(args) == 2 and T.num(rv(1)) == 2:
            return out(T.mul(rv(0), rv(0)))
        return out(('call', nm) + tuple(rv(k) for k in range(len(args))))
    if cls.startswith('std::numeric_limits') or \
            q.startswith('std::numeric_limits'):
        return out(('limit', name, bty(fn.ty(n['t']))))

    # ----------------------------------------------------------------- Eigen
    r = eigen_call(I, fn, frame, i, n, st, f, args, cls, name, q, out, oloc,
                   oval, rv, has_obj, bty, is_scalar, eigen)
    if r is not None:
        return r
    # -------------------------------------------------- generic class assign
    if name == 'operator=' and has_obj and len(args) == 1:
        cal = I.p.fns.get(f.get('u'))
        if cal is None or cal.d.get('implicit') or cal.nocfg:
            loc = oloc()
            v = I.rvalue(fn, st, args[0])
            I.store(st, loc, v, fn, i)
            return out(('&', loc))
    # ------------------------------------------------------------ algorithms
    if q.startswith('std::') and q.count('::') == 1:
        r = algorithm(I, fn, frame, i, n, st, f, args, name, out, rv, event)
        if r is not None:
            return r
    # -------------------------------------------------------------- streams
    if cb.startswith('std::basic_') and 'stream' in cb or \
            (q == 'std::operator<<' or q == 'std::operator>>'):
        return stream(I, fn, frame, i, n, st, f, args, name, q, out, rv, event,
                      has_obj, oloc, obj)
    return None


def char_at(I, st, n, v, pos):
    t = ('tmp', 0, ('ch', v, pos))
    if n.get('lv'):
        st.store.setdefault(t, ('call', 'char', v, pos))
        return ('&', t)
    return ('call', 'char', v, pos)


def inner(t):
    """first template argument of a type string"""
    k = t.index('<')
    d = 0
    for j in range(k, len(t)):
        if t[j] == '<':
            d += 1
        elif t[j] == '>':
            d -= 1
            if d == 0:
                return t[k + 1:j].strip()
        elif t[j] == ',' and d == 1:
            return t[k + 1:j].strip()
    return ''


def concat(a, b):
    def parts(x):
        return list(x[2:]) if x[0] == 'call' and x[1] == 'concat' else [x]
    ps = parts(a) + parts(b)
    out = []
    for x in ps:
        if x[0] == 'c' and isinstance(x[1], str):
            if x[1] == '':
                continue
            if out and out[-1][0] == 'c' and isinstance(out[-1][1], str):
                out[-1] = c(out[-1][1] + x[1])
                continue
        out.append(x)
    if not out:
        return c('')
    if len(out) == 1:
        return out[0]
    return ('call', 'concat') + tuple(out)


def size(I, st, L):
    return I.load(st, ('f', L, '#size'))


def set_size(I, st, L, v):
    I.store(st, ('f', L, '#size'), v, quiet=True)


def container(I, fn, frame, i, n, st, f, args, cb, name, out, oloc, rv, event,
              bty, is_scalar, MAPS):
    if cb == 'std::array' and name == 'size':
        return out(I.fresh('array size'))
    L = oloc()
    szl = ('f', L, '#size')

    def rd():
        from .interp import Ev
        if I.reads:
            I.ev(st, Ev('read', fn, i, loc=L))
    if cb == 'pcl::PointCloud':
        if name in ('size', 'begin', 'end', 'push_back', 'operator[]', 'at',
                    'empty', 'clear', 'front', 'back', 'resize', 'reserve'):
            L = ('f', L, 'points')
            szl = ('f', L, '#size')
        else:
            return None
    if name == 'size':
        rd()
        return out(I.load(st, szl))
    if name == 'empty':
        rd()
        return out(T.cmp('==', I.load(st, szl), ZERO))
    if name in ('begin', 'cbegin'):
        rd()
        return out(('it', L, ZERO))
    if name in ('end', 'cend'):
        return out(('it', L, I.load(st, szl)))
    if name in ('rbegin', 'rend', 'crbegin', 'crend'):
        return out(('rit', L, name))
    if name in ('operator[]', 'at'):
        rd()
        x = rv(0)
        if cb in MAPS or cb == 'std::multimap':
            if name == 'operator[]' and cb in MAPS:
                from .interp import Ev
                I.ev(st, Ev('call', fn, i, q=f['q'], n=name, c=cb, obj=L,
                            args=(x,), frame=frame))
                # a missing key is inserted
                I.store(st, szl, I.fresh('size'), quiet=True)
            return out(('&', ('[]', L, ('key', x))))
        if name == 'at':
            from .interp import Ev
            I.ev(st, Ev('call', fn, i, q=f['q'], n=name, c=cb, obj=L, args=(x,),
                        frame=frame))
        elif I.reads:
            from .interp import Ev
            I.ev(st, Ev('index', fn, i, loc=L, val=x))
        return out(('&', ('[]', L, x)))
    if name in ('front', 'top'):
        rd()
        if I.reads:
            from .interp import Ev
            I.ev(st, Ev('call', fn, i, q=f['q'], n=name, c=cb, obj=L, args=(),
                        frame=frame))
        return out(('&', ('[]', L, ZERO)))
    if name == 'back':
        rd()
        return out(('&', ('[]', L, T.sub(I.load(st, szl), ONE))))
    if name == 'data':
        return out(('&', ('[]', L, ZERO)))
    if name in ('reserve', 'shrink_to_fit'):
        event(obj=L, args=tuple(rv(k) for k in range(len(args))))
        return out(('void',))
    if name in ('push_back', 'emplace_back', 'push', 'emplace') and \
            cb not in MAPS and cb not in ('std::set', 'std::unordered_set'):
        sz = I.load(st, szl)
        if name.startswith('emplace') and len(args) != 1:
            v = ('obj', 'emplaced', I.fresh()[1]) + tuple(
                rv(k) for k in range(len(args)))
        else:
            v = rv(0)
        event(obj=L, args=(v,), argl=tuple(I.val(fn, st, a) for a in args))
        I.store(st, ('[]', L, sz), v, quiet=True)
        st.store[('[]', L, sz)] = st.store.get(('[]', L, sz), v)
        set_size(I, st, L, T.add(sz, ONE))
        if cb.endswith('concurrent_vector'):
            return out(('it', L, sz))
        return out(('void',) if not n.get('lv') else ('&', ('[]', L, sz)))
    if name in ('pop_back',):
        sz = I.load(st, szl)
        event(obj=L, args=())
        set_size(I, st, L, T.sub(sz, ONE))
        return out(('void',))
    if name in ('pop_front', 'pop'):
        sz = I.load(st, szl)
        front = I.full(st, ('[]', L, ZERO))
        event(obj=L, args=(), val=front)
        I.store(st, ('[]', L, I.fresh('pop')), I.fresh('popped'), quiet=True)
        for l in [l for l in st.store if l[0] == '[]' and l[1] == L]:
            del st.store[l]
        st.store[('el', L)] = I.fresh('popped')
        set_size(I, st, L, T.sub(sz, ONE))
        return out(('void',))
    if name == 'clear':
        event(obj=L, args=())
        I.store(st, L, ('cont', cb, ZERO), fn, i)
        return out(('void',))
    if name in ('resize', 'grow_to_at_least'):
        v = rv(0)
        old = I.load(st, szl)
        event(obj=L, args=tuple(rv(k) for k in range(len(args))))
        set_size(I, st, L, v)
        return out(('void',))
    if name in ('erase',):
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=L, args=vs)
        I.store(st, L, I.fresh('erased'), quiet=True)
        r = ('it', L, I.fresh('after_erase'))
        return out(r)
    if name in ('insert', 'emplace', 'emplace_hint', 'insert_or_assign'):
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=L, args=vs, argl=tuple(I.val(fn, st, a) for a in args))
        I.store(st, L, I.fresh('inserted'), quiet=True)
        if cb in MAPS or cb in ('std::set', 'std::unordered_set'):
            return out(('rec', ('init', 'pair'), (
                (('f', 'first'), ('it', L, I.fresh('ins'))),
                (('f', 'second'), I.fresh('inserted?')))))
        return out(('it', L, I.fresh('ins')))
    if name in ('find',):
        rd()
        return out(('it', L, ('find', rv(0), I.load(st, szl))))
    if name == 'count':
        rd()
        return out(('call', 'count', I.load(st, L), rv(0)))
    if name in ('lower_bound', 'upper_bound'):
        return out(('it', L, ('call', name, I.load(st, L), rv(0))))
    if name == 'operator=':
        v = I.rvalue(fn, st, args[0])
        I.store(st, L, v, fn, i)
        return out(('&', L))
    if name == 'assign':
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=L, args=vs)
        I.store(st, L, I.fresh('assign'), quiet=True)
        return out(('void',))
    return None


def wait(I, fn, frame, i, n, st, lv, args, event, out, timed=False, cv=None):
    """blocks until the predicate holds; the lock is given up meanwhile"""
    lam = I.rvalue(fn, st, args[-1]) if args else None
    m = lv[2] if lv is not None and lv[0] == 'lock' else None
    event(obj=cv or m, args=(), val=lam, loc=m, x='wait')
    # whatever the lock guards may have changed meanwhile
    if I.on_sync:
        I.on_sync(I, st, m, 'wait')
    if lam is not None and lam[0] == 'lam':
        r = I.call_lambda(fn, frame, i, st, lam, [])
        if r is not None:
            res = []
            for s, v in r:
                if timed:
                    s.vals[i] = v
                    res.append(s)
                else:
                    t = v if v[0] in ('c', '!', '<', '==') else v
                    if I.assume(s, t, True):
                        s.vals[i] = ('void',)
                        res.append(s)
            return res
    return out(('void',))


# ------------------------------------------------------------------- Eigen
VIEW1 = {'col', 'row', 'head', 'tail', 'segment', 'topRows', 'bottomRows',
         'leftCols', 'rightCols', 'diagonal', 'block', 'topLeftCorner',
         'topRightCorner', 'middleCols', 'middleRows', 'translation', 'linear',
         'rotation_', 'coeffs', 'matrix', 'array', 'vec', 'noalias',
         'bottomLeftCorner', 'bottomRightCorner'}
SAME = {'matrix', 'noalias', 'array', 'eval', 'cast', 'derived', 'coeffs',
        'nestedExpression', 'asDiagonal_'}


def dims(t):
    """(rows, cols) of an Eigen type string when fixed"""
    import re
    if re.match(r'(const )?Eigen::((Dense|Matrix)Base<Eigen::)?Block<', t):
        m = re.search(r', (\d+), (\d+)(?:, (?:true|false|0|1))?>+$', t)
        return (int(m.group(1)), int(m.group(2))) if m else None
    m = re.search(r'Matrix<[a-z ]+, (\d+), (\d+)', t)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.search(r'Eigen::(?:Matrix|RowVector|Vector)(\d)[fdi]\b', t)
    if m:
        k = int(m.group(1))
        if 'RowVector' in t:
            return 1, k
        return (k, 1) if 'Vector' in t else (k, k)
    return None


def eigen_call(I, fn, frame, i, n, st, f, args, cls, name, q, out, oloc, oval,
               rv, has_obj, bty, is_scalar, eigen):
    import re
    rt = bty(fn.ty(n['t'])) if 't' in n else ''
    in_eigen = cls.startswith('Eigen::') or q.startswith('Eigen::')
    if not in_eigen:
        return None
    if not has_obj:
        if name == 'Constant' and len(args) == 1:
            return out(('call', 'constant', rv(0)))
        if name == 'Constant' and len(args) in (2, 3):
            return out(sized(('call', 'constant', rv(len(args) - 1)),
                             [rv(k) for k in range(len(args) - 1)]))
        if name == 'Identity':
            return out(('I',))
        if name == 'Zero':
            return out(sized(ZERO, [rv(k) for k in range(len(args))]))
        if name in ('UnitX', 'UnitY', 'UnitZ'):
            k = 'XYZ'.index(name[-1])
            return out(('vec',) + tuple(ONE if j == k else ZERO
                                        for j in range(3)))
        if name == 'Ones':
            return out(('ones',))
        if name in ('operator*',) and len(args) == 2:
            a, b = rv(0), rv(1)
            if is_scalar(fn.node_ty(args[0])) or is_scalar(fn.node_ty(args[1])):
                return out(T.mul(a, b))
            return out(T.mm(a, b))
        if name in ('operator-', 'operator+') and len(args) == 2:
            return out(T.add(rv(0), rv(1)) if name[-1] == '+' else
                       T.sub(rv(0), rv(1)))
        if name == 'operator<<' and len(args) == 2:
            return out(I.val(fn, st, args[0]))
        if name == 'FromTwoVectors':
            return out(('call', name) + tuple(rv(k) for k in range(len(args))))
        return out(('call', q) + tuple(rv(k) for k in range(len(args))))
    # element access
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef') and args:
        xs = tuple(rv(k) for k in range(len(args)))
        sel = xs[0] if len(xs) == 1 else ('pair', xs[0], xs[1])
        if len(xs) == 2 and xs[1] == ZERO:
            d = dims(bty(fn.node_ty(n['obj'])))
            if d and d[1] == 1:
                sel = xs[0]
        loc = ('[]', oloc(), sel)
        if n.get('lv'):
            return out(('&', loc))
        return out(I.load(st, loc, fn, i))
    if name in ('x', 'y', 'z', 'w') and not args:
        k = 'xyzw'.index(name)
        if 'Quaternion' in cls:
            sel = c(name)
        else:
            sel = c(k)
        loc = ('[]', oloc(), sel)
        if n.get('lv'):
            return out(('&', loc))
        return out(I.load(st, loc, fn, i))
    if name in ('operator=',) or name == 'operator+=' or name == 'operator-=' \
            or name == 'operator*=' or name == 'operator/=':
        loc = oloc()
        v = I.rvalue(fn, st, args[0])
        if name != 'operator=':
            old = I.load(st, loc)
            if name == 'operator+=':
                v = T.add(old, v)
            elif name == 'operator-=':
                v = T.sub(old, v)
            elif name == 'operator*=':
                v = T.mul(old, v) if is_scalar(fn.node_ty(args[0])) else \
                    T.mm(old, v)
            else:
                v = T.div(old, v)
        elif v[0] == 'uninit':
            pass
        I.store(st, loc, v, fn, i)
        return out(('&', loc))
    if name in ('setIdentity', 'setZero', 'setOnes', 'setConstant', 'setRandom',
                'fill', 'normalize'):
        loc = oloc()
        if name == 'setIdentity':
            v = ('I',)
        elif name == 'setZero':
            v = ZERO
        elif name == 'normalize':
            v = ('call', 'normalized', I.load(st, loc))
        elif name in ('setConstant', 'fill'):
            v = ('call', 'constant', rv(0))
        else:
            v = ('ones',) if name == 'setOnes' else I.fresh(name)
        keep = I.load(st, loc)
        I.store(st, loc, v, fn, i)
        if name in ('setZero', 'setIdentity', 'setOnes') and args:
            vs = [rv(k) for k in range(len(args))]
            I.store(st, ('f', loc, '#rows'), vs[0], quiet=True)
            I.store(st, ('f', loc, '#cols'), vs[1] if len(vs) > 1 else ONE,
                    quiet=True)
        elif keep[0] == 'rec':
            for s, x in keep[2]:
                if s[0] == 'f' and s[1] in ('#rows', '#cols'):
                    I.store(st, ('f', loc, s[1]), x, quiet=True)
        return out(('&', loc))
    if name == 'operator<<' and len(args) == 1:
        loc = oloc()
        I.store(st, loc, ('uninit', loc), quiet=True)
        return comma(I, fn, i, st, loc, 0, args[0], bty(fn.node_ty(n['obj'])),
                     is_scalar, out)
    if name == 'operator,' and 'CommaInitializer' in cls:
        v = I.rvalue(fn, st, n['obj'])
        if v[0] == 'ci':
            return comma(I, fn, i, st, v[1], v[2], args[0], v[3], is_scalar, out)
        return out(v)
    if name == 'finished':
        v = I.rvalue(fn, st, n['obj'])
        if v[0] == 'ci':
            return out(('&', v[1]))
        return out(v)
    if name == 'operator*' and len(args) == 1:
        a, b = oval(), rv(0)
        if is_scalar(fn.node_ty(args[0])):
            return out(T.mul(a, b))
        if 'Array' in cls:
            return out(('op', 'cwise*') + tuple(sorted((a, b), key=repr)))
        return out(T.mm(a, b))
    if name == 'operator/' and len(args) == 1:
        return out(T.div(oval(), rv(0)))
    if name == 'operator+' and len(args) == 1:
        return out(T.add(oval(), rv(0)))
    if name == 'operator-':
        return out(T.sub(oval(), rv(0)) if args else T.neg(oval()))
    if name in ('operator==', 'operator!=') and len(args) == 1:
        return out(T.cmp(name[8:], oval(), rv(0)))
    if name == 'inverse':
        return out(T.inv(oval()))
    if name in ('squaredNorm',):
        return out(('call', 'sqn', oval()))
    if name == 'norm':
        return out(('call', 'sqrt', ('call', 'sqn', oval())))
    if name in ('cwiseAbs',):
        return out(('op', 'cabs', oval()))
    if name in SAME:
        o = oloc()
        if n.get('lv') or name in ('matrix', 'array', 'noalias', 'derived',
                                   'coeffs'):
            if n.get('lv'):
                return out(('&', o))
            # a proxy object: keep it assignable
            if fn.nodes[n['obj']].get('lv') and name in ('noalias',):
                return out(('&', o))
        return out(I.load(st, o, fn, i))
    if name in VIEW1:
        return view(I, fn, i, n, st, name, args, rt, oloc, rv, out, cls)
    if name in ('rows', 'cols', 'size'):
        d = dims(bty(fn.node_ty(n['obj'])))
        if d:
            return out(c({'rows': d[0], 'cols': d[1], 'size': d[0] * d[1]}[name]))
        return out(I.load(st, ('f', oloc(), '#' + name), fn, i))
    if name in ('resize', 'conservativeResize'):
        from .interp import Ev
        loc = oloc()
        vs = tuple(rv(k) for k in range(len(args)))
        I.ev(st, Ev('call', fn, i, q=q, n=name, c=cls, obj=loc, args=vs,
                    frame=frame))
        if name == 'resize':
            I.store(st, loc, I.fresh('resized'), quiet=True)
        if len(vs) in (1, 2):
            I.store(st, ('f', loc, '#rows'), vs[0], quiet=True)
            I.store(st, ('f', loc, '#cols'), vs[1] if len(vs) == 2 else ONE,
                    quiet=True)
        return out(('void',))
    vs = tuple(rv(k) for k in range(len(args)))
    if f.get('const') or f.get('static') or \
            name == 'transpose' and not args:
        r = ('call', name, oval()) + vs
        if n.get('lv'):
            return out(('&', ('*', r)))
        return out(r)
    return None


def sized(v, dims):
    """a constant matrix with the sizes it was made with"""
    if not dims:
        return v
    return ('rec', v, ((('f', '#cols'), dims[1] if len(dims) > 1 else ONE),
                       (('f', '#rows'), dims[0])))


def comma(I, fn, i, st, loc, k, a, t, is_scalar, out):
    from .interp import Ev
    v = I.rvalue(fn, st, a)
    if is_scalar(fn.node_ty(a)):
        d = dims(t)
        if d and d[1] == 1 or d and d[0] == 1:
            sel = c(k)
        elif d:
            sel = ('pair', c(k // d[1]), c(k % d[1]))
        else:
            sel = c(k)
        to = ('[]', loc, sel)
        if loc[0] == '[]' and loc[2][0] == 'blk':
            from .mat import cell
            x = cell(to)
            if x is not None:
                to = ('[]', x[0], ('pair', x[1], x[2]))
        I.store(st, to, v, quiet=True)
        I.ev(st, Ev('cell', fn, i, loc=to, val=v))
        return out(('ci', loc, k + 1, t))
    I.store(st, loc, I.fresh('comma'), quiet=True)
    return out(('ci', loc, k + 1, t))


def view(I, fn, i, n, st, name, args, rt, oloc, rv, out, cls):
    import re
    L = oloc()
    vs = [rv(k) for k in range(len(args))]
    d = dims(fn.node_ty(n['obj']))
    sel = None
    m = re.search(r', (-?\d+), (-?\d+)(?:, (?:true|false|0|1))?>$', rt)
    fr = int(m.group(1)) if m else -1
    fc = int(m.group(2)) if m else -1
    if name == 'block':
        if len(vs) == 4:
            sel = ('blk', vs[0], vs[1], vs[2], vs[3])
        elif len(vs) == 2:
            sel = ('blk', vs[0], vs[1], c(fr), c(fc))
    elif name == 'col':
        sel = ('blk', ZERO, vs[0], c(d[0]) if d else ('rows',), ONE)
    elif name == 'row':
        sel = ('blk', vs[0], ZERO, ONE, c(d[1]) if d else ('cols',))
    elif name == 'translation':
        sel = ('blk', ZERO, c(3), c(3), ONE)
    elif name == 'linear':
        sel = ('blk', ZERO, ZERO, c(3), c(3))
    elif name == 'topRows':
        k = vs[0] if vs else c(fr)
        sel = ('blk', ZERO, ZERO, k, c(d[1]) if d else ('cols',))
    elif name == 'topLeftCorner':
        sel = ('blk', ZERO, ZERO) + (tuple(vs) if len(vs) == 2 else
                                     (c(fr), c(fc)))
    elif name == 'topRightCorner' and d:
        r_, c_ = (vs if len(vs) == 2 else (c(fr), c(fc)))
        sel = ('blk', ZERO, T.sub(c(d[1]), c_), r_, c_)
    elif name == 'head':
        sel = ('blk', ZERO, ZERO, vs[0] if vs else c(fr), ONE)
    elif name == 'leftCols':
        sel = ('blk', ZERO, ZERO, c(d[0]) if d else ('rows',), vs[0] if vs
               else c(fc))
    elif name == 'bottomRows' and d:
        k = vs[0] if vs else c(fr)
        sel = ('blk', T.sub(c(d[0]), k), ZERO, k, c(d[1]))
    elif name == 'tail' and d and d[1] == 1:
        k = vs[0] if vs else c(fr)
        sel = ('blk', T.sub(c(d[0]), k), ZERO, k, ONE)
    elif name == 'segment' and d and d[1] == 1:
        sel = ('blk', vs[0], ZERO, vs[1] if len(vs) > 1 else c(fr), ONE)
    elif name == 'rightCols' and d:
        k = vs[0] if vs else c(fc)
        sel = ('blk', ZERO, T.sub(c(d[1]), k), c(d[0]), k)
    if sel is None:
        sel = ('blk?', name) + tuple(vs)
    if d and sel == ('blk', ZERO, ZERO, c(d[0]), c(d[1])):
        loc = L
    else:
        if sel[0] == 'blk' and L[0] == '[]' and L[2][0] == 'blk':
            # a view of a view
            o = L[2]
            if name == 'head' and o[3] == ONE and o[4] != ONE:
                sel = sel[:3] + (ONE, sel[3])
            sel = ('blk', T.add(o[1], sel[1]), T.add(o[2], sel[2]),
                   o[3] if sel[3] == ('rows',) else sel[3],
                   o[4] if sel[4] == ('cols',) else sel[4])
            L = L[1]
        loc = ('[]', L, sel)
    if n.get('lv') or fn.nodes[n['obj']].get('lv'):
        # Block objects are prvalues that write through
        st.vals[i] = ('&', loc)
        fn.nodes[i]['lv'] = True
        return [st]
    return out(I.load(st, loc, fn, i))


# ---------------------------------------------------------------- algorithms
def algorithm(I, fn, frame, i, n, st, f, args, name, out, rv, event):
    if name in ('lower_bound', 'upper_bound', 'find', 'max_element',
                'min_element', 'find_if', 'binary_search', 'count',
                'accumulate', 'any_of', 'all_of', 'none_of', 'equal',
                'count_if', 'isnan', 'partition_point'):
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=None, args=vs)
        if vs and vs[0][0] == 'it' and name in (
                'lower_bound', 'upper_bound', 'find', 'max_element',
                'min_element', 'find_if', 'partition_point'):
            # a fresh position in the same container
            extra = tuple(v for v in vs[2:] if v[0] != 'lam')
            return out(('it', vs[0][1], ('alg', name, vs[0][2],
                                         vs[1][2] if len(vs) > 1 and
                                         vs[1][0] == 'it' else ZERO) + extra))
        return out(('call', 'std::' + name) + vs)
    if name in ('sort', 'stable_sort', 'reverse', 'shuffle', 'random_shuffle',
                'nth_element', 'fill', 'fill_n', 'unique', 'remove_if',
                'remove', 'rotate', 'iota', 'partial_sort', 'generate'):
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=None, args=vs)
        if vs and vs[0][0] == 'it':
            L = vs[0][1]
            sz = size(I, st, L)
            if name == 'fill' and vs[0][2] == ZERO and len(vs) == 3:
                el = ('all', vs[2])
            else:
                el = I.fresh(name)
            for l in [l for l in st.store if I._under_elem(L, l)
                      and T.is_prefix(L, l)]:
                del st.store[l]
            st.store[('el', L)] = el
            for w in I.wlogs:
                w.add(('[]', L, I.fresh('any')))
        if name in ('unique', 'remove_if', 'remove') and vs[0][0] == 'it':
            return out(('it', vs[0][1], I.fresh(name)))
        return out(('void',))
    if name in ('back_inserter',) and args:
        return out(('call', 'back_inserter', ('&', I.lloc(fn, st, args[0]))))
    if name in ('copy', 'copy_n', 'transform', 'copy_if', 'for_each'):
        vs = tuple(rv(k) for k in range(len(args)))
        event(obj=None, args=vs)
        if len(vs) > 1 and vs[0][0] == 'it' and vs[1][0] == 'it':
            if name == 'for_each' and len(vs) == 3 and vs[2][0] == 'lam':
                return for_each(I, fn, frame, i, st, vs, vs[2], None, out)
            if name == 'transform' and len(vs) == 4 and vs[3][0] == 'lam':
                return for_each(I, fn, frame, i, st, vs, vs[3], vs[2], out)
            if name == 'copy' and len(vs) == 3:
                return for_each(I, fn, frame, i, st, vs, None, vs[2], out)
        for v in vs[2:]:
            if v[0] == 'it':
                L = v[1]
                for l in [l for l in st.store if T.is_prefix(L, l)
                          and I._under_elem(L, l)]:
                    del st.store[l]
                st.store[('el', L)] = I.fresh(name)
                for w in I.wlogs:
                    w.add(('[]', L, I.fresh('any')))
            elif v[0] == 'call' and v[1] == 'back_inserter':
                I.havoc(st, v[2][1], name, fn, i)
        return out(I.fresh(name))
    if name in ('get',) and args:
        t = I.lloc(fn, st, args[0])
        k = (f.get('ta') or ['?'])[0]
        return out(('&', ('f', t, 'get%s' % k)))
    return None


def for_each(I, fn, frame, i, st, vs, lam, dst, out):
    """one arbitrary application of the function to an element, its result
    stored through the output iterator, if there is one"""
    from .interp import Ev, Out
    if lam is not None:
        cal = I.p.fns.get(lam[1])
        if cal is None or len(cal.params) != 1:
            return out(I.fresh('for_each'))
    I.cnt += 1
    L = vs[0][1]
    lid = 'fe%d.%d' % (i, I.cnt) if not I.mute else 'fe%d' % i
    iv = ('iv', lid, vs[0][2], ONE)

    def body(s):
        if lam is not None:
            r = I.call_lambda(fn, frame, i, s, lam, [('&', ('[]', L, iv))]) or []
        else:
            r = [(s, I.full(s, ('[]', L, iv)))]
        for x, v in r:
            if dst is None:
                continue
            if dst[0] == 'it':
                I.store(x, ('[]', dst[1], T.add(T.sub(iv, vs[0][2]), dst[2])),
                        v, fn, i)
            elif dst[0] == 'call' and dst[1] == 'back_inserter':
                D = dst[2][1]
                sz = I.load(x, ('f', D, '#size'))
                I.ev(x, Ev('call', fn, i, q='std::back_inserter',
                           n='push_back', obj=D, args=(v,), argl=(v,),
                           frame=frame))
                I.store(x, ('[]', D, sz), v, quiet=True)
                set_size(I, x, D, T.add(sz, ONE))
        return r
    # discover writes of one application
    s = st.copy()
    log = set()
    I.wlogs.append(log)
    I.mute += 1
    o0 = len(I.outs)
    try:
        body(s)
    finally:
        I.mute -= 1
        I.wlogs.pop()
        del I.outs[o0:]
    W = {g for g in I.generalise(log, frame) if I.exists(g, st)}
    s = st.copy()
    syms = I.forget(s, W, st, {}, 0)
    bound = vs[1][2] if vs[1][0] == 'it' else I.fresh('end')
    I.ev(s, Ev('loop', fn, i, x=lid, val=()))
    e = s.copy()
    at_end = T.cmp('==', iv, bound)
    I.ev(s, Ev('cond', fn, i, val=T.lit(at_end)[0],
               pol=not T.lit(at_end)[1]))
    I.assume(s, T.cmp('<', iv, bound))
    for (x, v) in body(s):
        I.ev(x, Ev('iterend', fn, i, x=lid))
        if not I.mute:
            I.outs.append(Out('back', x, None, fn, lid))
    I.ev(e, Ev('cond', fn, i, val=T.lit(at_end)[0], pol=T.lit(at_end)[1]))
    I.ev(e, Ev('loopexit', fn, i, x=lid))
    e.vals[i] = lam if dst is None and lam is not None else I.fresh('last')
    return [e]


# ------------------------------------------------------------------ streams
def stream(I, fn, frame, i, n, st, f, args, name, q, out, rv, event, has_obj,
           oloc, obj):
    from .interp import Ev
    if has_obj:
        L = oloc()
        vals = tuple(rv(k) for k in range(len(args)))
        al = tuple(I.val(fn, st, a) for a in args)
        rest = args
    else:
        L = I.lloc(fn, st, args[0])
        rest = args[1:]
        vals = tuple(rv(k) for k in range(1, len(args)))
        al = tuple(I.val(fn, st, a) for a in args[1:])
    e = Ev('call', fn, i, q=q, n=name, c=f.get('c'), obj=L, args=vals, argl=al,
           frame=frame)
    I.ev(st, e)
    if name == 'operator>>' or name in ('read', 'getline', 'get'):
        for a in rest:
            v = I.val(fn, st, a)
            if fn.nodes[a].get('lv') and v[0] == '&':
                I.havoc(st, v[1], 'input', fn, i)
            else:
                v = I.rvalue(fn, st, a)
                if v[0] == '&':
                    I.havoc(st, v[1], 'input', fn, i)
    if name == 'str' and not args:
        return out(('call', 'stream.str', I.load(st, L)))
    if name in ('operator<<', 'operator>>', 'write', 'read', 'seekg', 'put'):
        if L[0] not in ('g',):
            old = I.load(st, L)
            if name == 'operator<<' and vals and vals[0][0] != 'fn':
                v = ('call', 'stream<<', old, vals[0])
            elif name == 'operator<<':
                v = old
            else:
                v = I.fresh('stream')
            I.store(st, L, v, quiet=True)
        return out(('&', L) if n.get('lv') else ('void',))
    if name in ('good', 'fail', 'bad', 'eof', 'is_open', 'operator bool',
                'operator!', 'tellg', 'rdstate'):
        r = ('call', 'stream.' + name, I.load(st, L))
        if name in ('operator bool',):
            r = T.not_(('call', 'stream.fail', I.load(st, L)))
        if name == 'operator!':
            r = ('call', 'stream.fail', I.load(st, L))
        e.res = r
        return out(r)
    if name in ('open', 'close', 'clear', 'flush', 'setf', 'precision', 'width',
                'imbue', 'rdbuf'):
        if L[0] != 'g':
            I.store(st, L, I.fresh('stream'), quiet=True)
        if n.get('lv'):
            return out(('&', L))
        return out(('void',))
    return None
