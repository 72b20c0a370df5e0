"""Whole-program view: function/class tables, call graph, exception flow."""
import re, collections
from src import children, walk, fn_nodes, Broken

STDEXC = {
 'std::logic_error': ['std::exception'], 'std::runtime_error': ['std::exception'],
 'std::domain_error': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
 'std::length_error': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'],
 'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error'],
 'std::underflow_error': ['std::runtime_error'], 'std::bad_alloc': ['std::exception'],
 'std::bad_cast': ['std::exception'], 'std::ios_base::failure': ['std::runtime_error'],
 'std::exception': []}

def strip(q):
    """qualified name without template arguments"""
    out = []; d = 0
    for i, c in enumerate(q):
        if c == '<' and not (q[:i].endswith('operator') or q[:i].endswith('operator<')): d += 1
        elif c == '>' and d > 0: d -= 1
        elif d == 0: out.append(c)
    return ''.join(out)

def bare(T):
    T = T.strip()
    while True:
        n = re.sub(r'^(const|volatile) ', '', T)
        n = re.sub(r'( const| volatile|&|\*)$', '', n).strip()
        if n == T: return T
        T = n

class Program:
    def __init__(self, units):
        self.units = units
        self.fns = {}
        for u in units:
            for f in u.fns:
                if f.get('body') and f['id'] not in self.fns: self.fns[f['id']] = f
        self.bases = dict(STDEXC)
        self.classes = {}
        for u in units:
            for c in u.classes:
                if c['q'] not in self.classes:
                    self.classes[c['q']] = c
                    self.bases[c['q']] = [b[0] for b in c.get('bases', [])]
        self.enums = {}
        for u in units:
            for e in u.enums: self.enums.setdefault(e['q'], e)
        self.vars = {}
        for u in units:
            for v in u.vars:
                if v.get('i') is not None or v['q'] not in self.vars: self.vars[v['q']] = v
        # overriders: method id -> set of ids overriding it (transitively)
        over = collections.defaultdict(set)
        for f in self.fns.values():
            for o in f.get('ovr', ()): over[o].add(f['id'])
        self.over = over
        self._calls()

    def targets(self, n):
        """possible callee ids of a Call/Con node"""
        f = n.get('fn')
        if not f: return ()
        if not n.get('virt') or n.get('qualified'): return (f,)
        out = set(); w = [f]
        while w:
            x = w.pop()
            if x in out: continue
            out.add(x); w.extend(self.over.get(x, ()))
        return out

    def _calls(self):
        self.callees = {}; self.callers = collections.defaultdict(set)
        self.direct = set(); self.throwing = set()
        self.indirect = set()
        self.addr_level = set()   # functions taken as values with signature void(eval_level)
        for i, f in self.fns.items():
            cs = set()
            for n in fn_nodes(f):
                k = n['k']
                if k == 'Ref':
                    if n.get('dk') == 'global' and n.get('q', '').endswith('::execution_stack'): self.direct.add(i)
                elif k in ('Call', 'Con'):
                    if n.get('fn'):
                        for t in self.targets(n): cs.add(t)
                    elif n.get('ce') is not None: self.indirect.add(i)
                elif k == 'Throw': self.throwing.add(i)
            self.callees[i] = cs
            for c in cs: self.callers[c].add(i)
        # stack touching through non-virtual calls (for inlining)
        nv = collections.defaultdict(set)
        for i, f in self.fns.items():
            for n in fn_nodes(f):
                if n['k'] in ('Call', 'Con') and n.get('fn'): nv[n['fn']].add(i)
        self.touch = self.closure(self.direct, nv)

    @staticmethod
    def closure(start, edges):
        seen = set(start); w = list(start)
        while w:
            for c in edges.get(w.pop(), ()):
                if c not in seen: seen.add(c); w.append(c)
        return seen

    def derived(self, a, b):
        seen = set(); w = [a]
        while w:
            x = w.pop()
            if x == b: return True
            if x in seen: continue
            seen.add(x); w.extend(self.bases.get(x, ()))
        return False

    # ---- exception flow
    def catch_type(self, u, h):
        ct = h.get('ct')
        if ct is None: return '...'
        return bare(u.types[ct][1] if isinstance(ct, int) else ct)

    def compute_throws(self):
        """throws[id] = set of exception class names that may escape"""
        if hasattr(self, 'throws'): return
        items = {}   # id -> list of (kind, what, guards)   kind 't' type / 'c' callee
        for i, f in self.fns.items():
            u = f['u']; lst = []
            def go(n, guards):
                st = [(n, guards)]
                while st:
                    x, g = st.pop()
                    if x is None: continue
                    k = x['k']
                    if k == 'Try':
                        c = x['c']
                        gs = []
                        for h in c[1:]:
                            if not rethrows(h): gs.append(self.catch_type(u, h))
                        st.append((c[0], g + tuple(gs)))
                        for h in c[1:]: st.append((h, g))
                        continue
                    if k == 'Throw':
                        if x.get('tt') is not None:
                            lst.append(('t', bare(u.types[x['tt']][1]), g))
                    elif k in ('Call', 'Con') and x.get('fn'):
                        for t in self.targets(x):
                            if t in self.fns: lst.append(('c', t, g))
                        for ty in getattr(self, 'extra_throws', {}).get(strip(x.get('q', '')), ()): lst.append(('t', ty, g))
                    for c in children(x): st.append((c, g))
            for ini in f.get('inits', ()):
                if ini.get('e'): go(ini['e'], ())
            go(f['body'], ())
            items[i] = lst
        T = {i: set() for i in self.fns}
        work = list(self.fns)
        inq = set(work)
        while work:
            i = work.pop(); inq.discard(i)
            new = set()
            for k, w, g in items[i]:
                for t in ((w,) if k == 't' else T[w]):
                    if not any(c == '...' or self.derived(t, c) for c in g): new.add(t)
            if new != T[i]:
                T[i] = new
                for c in self.callers.get(i, ()):
                    if c in self.fns and c not in inq: inq.add(c); work.append(c)
        self.throws = T

    def may_throw_types(self, fid):
        """set of class names, or empty"""
        self.compute_throws()
        return self.throws.get(fid, set())

def rethrows(h):
    return any(n['k'] == 'Throw' and n.get('tt') is None for n in walk(h))
