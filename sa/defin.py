"""Definite assignment: a forward dataflow over the control-flow graph of each
function.  The state is the set of numbers (scalar variables, scalar members
and fixed-size matrices, named by access path) that every path so far has
given a value; paths meet by intersection.  Calls of members of the same
object use the summary of the callee."""
import re
from .ir import base

EIG = re.compile(r'^(?:const )?Eigen::(Matrix<[a-z ]+, [1-9]\d*, [1-9]\d*\b|Quaternion<)'
                 r'|^(?:const )?std::atomic<')
SIMPLE = re.compile(r'^(?:const )?(?:(?:unsigned|signed|long|short) ?)*'
                    r'(?:int|bool|float|double|char|short|long|unsigned)?$')


class Atoms:
    """the numbers inside a class, and those its construction leaves unset"""

    def __init__(self, prog):
        self.p = prog
        self.recs = {}
        for r in prog.records.values():
            self.recs.setdefault(r['q'], r)
        self._at = {}
        self._left = {}
        self._sum = {}
        self.enums = set()
        for e in prog.enums:
            q = e if isinstance(e, str) else e.get('q')
            self.enums.add(q)

    def scalar(self, t):
        t = t[6:] if t.startswith('const ') else t
        return bool(SIMPLE.match(t)) and bool(t.strip()) or t in self.enums \
            or t.startswith('enum ')

    def number(self, t):
        return self.scalar(t) or bool(EIG.match(t))

    def rec(self, t):
        if t.endswith(('*', '&')):
            return None
        return self.recs.get(base(t)) if '<' not in t else self.recs.get(t)

    def of(self, r, seen=()):
        """access paths of the numbers held by an object of record r"""
        q = r['q']
        if q in self._at:
            return self._at[q]
        out = {}
        for x in r['fields']:
            t = r['tu'].types[x['t']]
            if self.number(t) or (x.get('scalar') and not t.endswith('*')):
                out[(x['n'],)] = (x, r)
            else:
                s = self.rec(t)
                if s is not None and s['q'] not in seen and s is not r:
                    for k, v in self.of(s, seen + (q,)).items():
                        out[(x['n'],) + k] = v
        for b in r['bases']:
            s = self.recs.get(base(b if isinstance(b, str)
                                   else r['tu'].types[b]))
            if s is not None and s is not r:
                for k, v in self.of(s, seen + (q,)).items():
                    out.setdefault(k, v)
        self._at[q] = out
        return out

    def ctors(self, q):
        out = []
        for f in self.p.fns.values():
            if f.kind != 'ctor' or f.cls != q or f.nocfg:
                continue
            if len(f.params) == 1 and \
                    base(f.ty(f.params[0]['t']).rstrip('& ')) == q:
                continue
            out.append(f)
        return out

    def left(self, r):
        """numbers some constructor leaves without a value"""
        q = r['q']
        if q in self._left:
            return self._left[q]
        self._left[q] = set()
        cs = self.ctors(q)
        at = set(self.of(r))
        if cs:
            out = set()
            for c in cs:
                out |= {a for a in at if ('this', a) not in self.summary(c)[1]}
        else:
            out = set()
            for x in r['fields']:
                t = r['tu'].types[x['t']]
                if 'e' in x:
                    continue
                if (x['n'],) in at:
                    out.add((x['n'],))
                else:
                    s = self.rec(t)
                    if s is not None:
                        out |= {(x['n'],) + a for a in self.left(s)}
        self._left[q] = out
        return out

    # ---------------------------------------------------------- functions
    def summary(self, f):
        """(reads before assignment {atom: where}, assigned at exit)"""
        if f.id in self._sum:
            return self._sum[f.id]
        self._sum[f.id] = ({}, set(), {})
        self._sum[f.id] = Flow(self, f).run()
        return self._sum[f.id]


class Flow:
    def __init__(self, A, f):
        self.A = A
        self.f = f
        self.N = f.nodes
        self.cls = A.recs.get(f.cls) if f.cls else None
        self.mine = set(A.of(self.cls)) if self.cls is not None else set()
        self.local = {}         # decl -> set of atom paths
        self.names = {}
        for n in self.N:
            if n['k'] == 'decl':
                for v in n['v']:
                    t = f.ty(v['t'])
                    self.names[v['d']] = v['n']
                    if v.get('st'):
                        continue
                    if A.number(t):
                        self.local[v['d']] = {()}
                    else:
                        r = A.rec(t)
                        if r is not None:
                            self.local[v['d']] = set(A.of(r))
        self.reads = {}
        self.lreads = {}

    # ---- access paths
    def path(self, i):
        n = self.N[i]
        k = n['k']
        if k == 'cast' and n.get('ck') in (
                'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase',
                'BaseToDerived'):
            return self.path(n['e'])
        if k == 'this':
            return ('this', ())
        if k == 'un' and n.get('op') == '*':
            e = self.N[n['e']]
            if e['k'] == 'this':
                return ('this', ())
            return None
        if k == 'ref' and n.get('dk') == 'local' and n.get('d') in self.local:
            return (n['d'], ())
        if k == 'mem' and 'fn' not in n:
            p = self.path(n['b'])
            if p is None:
                return None
            return (p[0], p[1] + (n['n'],))
        return None

    def atoms(self, p):
        root, pre = p
        s = self.mine if root == 'this' else self.local.get(root, ())
        return [(root, a) for a in s if a[:len(pre)] == pre]

    def set(self, st, p):
        st.update(self.atoms(p))

    def get(self, st, p, i):
        for a in self.atoms(p):
            if a in st:
                continue
            d = self.reads if a[0] == 'this' else self.lreads
            d.setdefault(a, (self.f, i))

    # ---- transfer
    def arg(self, st, i, mode):
        if i < 0:
            return
        p = self.path(i)
        if p is None or (p[0] == 'this' and not p[1]):
            return
        if mode == 1:
            self.get(st, p, i)
        elif mode == 2:
            self.set(st, p)

    def callee(self, fn):
        return self.A.p.fns.get(fn['u']) if 'u' in fn else None

    def own(self, st, g):
        """a member function of the same object runs here"""
        reads, done, _ = self.A.summary(g)
        for a, w in reads.items():
            if a not in st and a[1] in self.mine:
                self.reads.setdefault(a, w)
        st.update(x for x in done if x[1] in self.mine)

    def build(self, st, p, i, t):
        """the object at path p of type t is initialised by node i"""
        if i is None or i < 0:
            return
        n = self.N[i]
        while n['k'] == 'cast' and n.get('ck') in ('NoOp',
                                                   'ConstructorConversion'):
            n = self.N[n['e']]
        if n['k'] == 'ctor':
            if n.get('a'):
                self.set(st, p)
                return
            if n.get('zero'):
                self.set(st, p)
                return
            if EIG.match(t):
                return
            r = self.A.rec(t)
            if r is not None:
                left = self.A.left(r)
                for a in self.atoms(p):
                    if a[1][len(p[1]):] not in left:
                        st.add(a)
                return
        self.set(st, p)

    def step(self, st, i):
        n = self.N[i]
        k = n['k']
        if k == 'cast':
            if n.get('ck') == 'LValueToRValue':
                p = self.path(n['e'])
                if p is not None:
                    self.get(st, p, i)
        elif k == 'bin':
            op = n['op']
            if op == '=' or (op.endswith('=') and
                             op not in ('==', '!=', '<=', '>=')):
                p = self.path(n['a'])
                if p is not None:
                    if op != '=':
                        self.get(st, p, i)
                    self.set(st, p)
        elif k == 'un':
            p = self.path(n['e'])
            if p is not None:
                if n['op'] in ('++', '--', 'post++', 'post--') or \
                        '++' in n['op'] or '--' in n['op']:
                    self.get(st, p, i)
                    self.set(st, p)
                elif n['op'] == '&':
                    self.set(st, p)
        elif k in ('call', 'ctor'):
            fn = n.get('fn') or {}
            pm = fn.get('pm', [])
            a = list(n.get('a', []))
            obj = n.get('obj', -1)
            for j, x in enumerate(a):
                if x is None:
                    continue
                m = pm[j] if j < len(pm) else 2
                self.arg(st, x, m)
            if k == 'call' and obj is not None and obj >= 0:
                p = self.path(obj)
                if p is not None:
                    g = self.callee(fn)
                    if p == ('this', ()):
                        if g is not None and not g.nocfg:
                            self.own(st, g)
                    elif fn.get('const'):
                        if fn.get('repo') and g is not None and not g.nocfg:
                            for x, w in self.A.summary(g)[0].items():
                                self.get(st, (p[0], p[1] + x[1]), i)
                        else:
                            self.get(st, p, i)
                    elif fn.get('repo') and g is not None and not g.nocfg and \
                            not fn['n'].startswith('operator='):
                        s = self.A.summary(g)
                        for x, w in s[0].items():
                            self.get(st, (p[0], p[1] + x[1]), i)
                        for x in s[1]:
                            self.set(st, (p[0], p[1] + x[1]))
                        self.set(st, p)
                    else:
                        if fn.get('c', '').startswith('std::') and (
                                '++' in fn['n'] or '--' in fn['n'] or
                                'fetch_' in fn['n'] or 'exchange' in fn['n']):
                            self.get(st, p, i)
                        self.set(st, p)
        elif k == 'decl':
            for v in n['v']:
                t = self.f.ty(v['t'])
                e = v.get('e', -1)
                if v['d'] in self.local:
                    for a in list(st):
                        if a[0] == v['d']:
                            st.discard(a)
                    self.build(st, (v['d'], ()), e, t)
                elif e is not None and e >= 0 and t.endswith('&'):
                    p = self.path(e)
                    if p is not None and p[1] + (p[0],) != ('this',):
                        if t.startswith('const '):
                            self.get(st, p, e)
                        else:
                            self.set(st, p)
        elif k == 'ret':
            e = n.get('e', -1)
            if e is not None and e >= 0:
                p = self.path(e)
                if p is not None and p != ('this', ()):
                    rt = self.f.ty(self.f.d['ret']) if 'ret' in self.f.d else ''
                    if not rt.endswith('&') or rt.startswith('const '):
                        self.get(st, p, e)
        elif k == 'lam':
            for c in n.get('caps', []):
                if c.get('ref') and c.get('d') in self.local:
                    self.set(st, (c['d'], ()))
                if c.get('this'):
                    g = self.A.p.fns.get(n['fn'].get('u')) or self.lam(n)
                    if g is not None and not g.nocfg:
                        for a, w in self.A.summary(g)[0].items():
                            if a not in st and a[1] in self.mine:
                                self.reads.setdefault(a, w)
        elif k == 'ref' and n.get('fn') and self.cls is not None and \
                n['fn'].get('c') == self.cls['q'] and \
                not n['fn'].get('static'):
            g = self.callee(n['fn'])
            if g is not None and not g.nocfg:
                for a, w in self.A.summary(g)[0].items():
                    if a not in st and a[1] in self.mine:
                        self.reads.setdefault(a, w)

    def lam(self, n):
        for g in self.A.p.fns.values():
            if g.id.startswith('lam@') and g.id.endswith(self.f.id) and \
                    g.file == self.f.file and g.line == n['l']:
                return g
        return None

    def block(self, b, st):
        for e in self.f.blocks[b]['e']:
            if 's' in e:
                if e['s'] >= 0:
                    self.step(st, e['s'])
            elif 'init' in e:
                i = e.get('e', -1)
                x = [x for x in self.cls['fields'] if x['n'] == e['init']] \
                    if self.cls else []
                if x:
                    t = self.cls['tu'].types[x[0]['t']]
                    if i is not None and i >= 0 and e.get('w') and \
                            self.N[i]['k'] == 'ctor' and \
                            not self.N[i].get('a') and EIG.match(t) is None \
                            and self.A.rec(t) is None:
                        self.set(st, ('this', (e['init'],)))
                    else:
                        self.build(st, ('this', (e['init'],)), i, t)
            elif 'base' in e or 'deleg' in e:
                i = e.get('e', -1)
                if i is not None and i >= 0 and self.N[i]['k'] == 'ctor':
                    g = self.callee(self.N[i].get('fn') or {})
                    if g is not None and not g.nocfg:
                        for x in self.A.summary(g)[1]:
                            if x[1] in self.mine:
                                st.add(x)
                    elif g is None and 'base' in e:
                        r = self.A.recs.get(base(self.f.ty(e['base'])))
                        if r is not None:
                            L = self.A.left(r)
                            st.update(('this', a) for a in self.A.of(r)
                                      if a not in L)
        return st

    def run(self):
        f = self.f
        succ, pred, rpo, back, loops = f.analyse()
        order = sorted(rpo, key=lambda b: rpo[b])
        ins = {f.entry: frozenset()}
        outs = {}
        for _ in range(20):
            changed = False
            self.reads, self.lreads = {}, {}
            for b in order:
                if b != f.entry:
                    ps = [outs[x] for x in pred[b] if x in outs]
                    if not ps:
                        continue
                    s = frozenset.intersection(*ps)
                else:
                    s = frozenset()
                ins[b] = s
                o = frozenset(self.block(b, set(s)))
                B = f.blocks[b]
                if B.get('noret'):
                    outs.pop(b, None)
                    continue
                if outs.get(b) != o:
                    outs[b] = o
                    changed = True
            if not changed:
                break
        end = outs.get(f.exit)
        done = {a for a in end if a[0] == 'this'} if end is not None else \
            {('this', a) for a in self.mine}
        return self.reads, done, self.lreads
