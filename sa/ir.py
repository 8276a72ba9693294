"""Program model built from extractor output."""
import re
from . import extract


def strip_templates(s):
    out = []
    d = 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch == '<' and not s.startswith('operator<', max(0, i - 8)):
            d += 1
        elif ch == '>' and d > 0:
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


_base_cache = {}


def base(cls):
    """class name without cv, reference, pointer-free, template arguments"""
    if cls is None:
        return ''
    r = _base_cache.get(cls)
    if r is None:
        s = cls
        for k in ('const ', 'volatile ', 'struct ', 'class '):
            if s.startswith(k):
                s = s[len(k):]
        r = strip_templates(s).strip()
        _base_cache[cls] = r
    return r


class Fn:
    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.id = d['id']
        self.q = d['q']
        self.n = d['n']
        self.file = d['file']
        self.line = d['line']
        self.kind = d['kind']
        self.cls = d.get('cls')
        self.params = d['params']
        self.nodes = d['nodes']
        self.omp = d.get('omp') or []
        self.blocks = {b['b']: b for b in d.get('blocks', [])}
        self.entry = d.get('entry')
        self.exit = d.get('exit')
        self.nocfg = d.get('nocfg', False) or not self.blocks
        self._an = None
        for b in self.blocks.values():
            seen = set()
            es = []
            for e in b['e']:
                if 's' in e and len(e) == 1:
                    if e['s'] in seen:
                        continue
                    seen.add(e['s'])
                es.append(e)
            b['e'] = es

    def ty(self, i):
        return self.tu.types[i] if i is not None and i >= 0 else ''

    def node_ty(self, i):
        n = self.nodes[i]
        return self.ty(n['t']) if 't' in n else ''

    # ---- control-flow structure
    def analyse(self):
        if self._an:
            return self._an
        succ = {b: [s for s in B['s'] if s >= 0] for b, B in self.blocks.items()}
        order = []
        color = {}
        back = set()
        stack = [(self.entry, iter(succ[self.entry]))]
        color[self.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in color:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    back.add((b, s))
            else:
                color[b] = 2
                order.append(b)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(order))}
        pred = {b: [] for b in self.blocks}
        for b, ss in succ.items():
            if b in rpo:
                for s in ss:
                    pred[s].append(b)
        loops = {}
        for (b, h) in back:
            body = loops.setdefault(h, {h})
            st = [b]
            while st:
                x = st.pop()
                if x in body:
                    continue
                body.add(x)
                st.extend(pred[x])
        self._an = (succ, pred, rpo, back, loops)
        return self._an

    def calls(self):
        for i, n in enumerate(self.nodes):
            if n['k'] in ('call', 'ctor'):
                yield i, n

    def where(self, i=None):
        return '%s:%d' % (self.file, self.nodes[i]['l'] if i is not None
                          and i >= 0 and 'l' in self.nodes[i] else self.line)


class TU:
    def __init__(self, src, d):
        self.src = src
        self.types = d['types']
        self.decls = d.get('decls', [])
        self.d = d
        self.fns = [Fn(f, self) for f in d['functions']]


class Program:
    def __init__(self, srcs):
        self.srcs = list(srcs)
        data = extract.extract(self.srcs)
        self.tus = {}
        self.fns = {}
        self.records = {}
        self.globals = {}
        self.enums = {}
        self.deps = set()
        for s in self.srcs:
            tu = TU(s, data[s])
            self.tus[s] = tu
            self.deps.update(data[s]['deps'])
            self.deps.add(s)
            for f in tu.fns:
                if f.id not in self.fns:
                    self.fns[f.id] = f
            for r in data[s]['records']:
                r['tu'] = tu
                self.records.setdefault(r['q'], r)
            for g in data[s]['globals']:
                g['tu'] = tu
                self.globals.setdefault(g['q'], g)
            for e in data[s]['enums']:
                self.enums.setdefault(e['q'], e)
        self.by_q = {}
        for f in self.fns.values():
            self.by_q.setdefault(f.q, []).append(f)

    def find(self, suffix, pred=None):
        """functions whose qualified name is or ends with ::suffix"""
        out = []
        for q, fs in self.by_q.items():
            if q == suffix or q.endswith('::' + suffix):
                out.extend(f for f in fs if pred is None or pred(f))
        return sorted(out, key=lambda f: (f.file, f.line))

    def one(self, suffix, pred=None):
        r = self.find(suffix, pred)
        r = [f for f in r if not f.nocfg]
        if len(r) != 1:
            raise LookupError('%d definitions of %s' % (len(r), suffix))
        return r[0]

    def record(self, suffix):
        r = [v for q, v in self.records.items()
             if q == suffix or q.endswith('::' + suffix)]
        if len(r) != 1:
            raise LookupError('%d records named %s' % (len(r), suffix))
        return r[0]

    def derived(self, q):
        """records that derive (transitively) from q"""
        out = {q}
        ch = True
        while ch:
            ch = False
            for n, r in self.records.items():
                if n not in out and any(base(b) in out for b in self.bases(r)):
                    out.add(n)
                    ch = True
        out.discard(q)
        return out

    def bases(self, r):
        return [r['tu'].types[b] if isinstance(b, int) else b
                for b in r.get('bases', [])]
