"""Writes that precede a possible failure: for each function the persistent locations
(parts of *this, of arguments, of globals) that may already have been changed when an
exception escapes from it.  Interprocedural, over control-flow graphs."""
from src import children, walk
from prog import strip, bare, rethrows
import cfg, collections

class TAW:
    def __init__(self, P, E, keep=None, relevant=None, writes=None):
        """keep(path) -> is this location of interest;  relevant(type) -> is this exception type of interest"""
        P.compute_throws()
        self.P = P; self.E = E
        self.hin = {}     # (function, handler) -> what may have been written when the handler is entered
        self.keep = keep or (lambda p: True)
        self.rel = relevant or (lambda t: True)
        self.writes = writes or (lambda fi, n: {p for kd, p in E.effects(fi, n) if kd in ('w', 'g')})
        self.T = {i: frozenset() for i in E.info}
        self.why = {}
        self.g = {}
        todo = [i for i in E.info if any(self.rel(t) for t in P.throws.get(i, ()))or self._has_try(i)]
        self.todo = set(todo)
        work = list(todo); inq = set(work); n = collections.Counter()
        while work:
            i = work.pop(); inq.discard(i); n[i] += 1
            if n[i] > 20: continue
            r = self.analyse(i)
            if r != self.T[i]:
                self.T[i] = r
                for c in P.callers.get(i, ()):
                    if c in self.todo and c not in inq: inq.add(c); work.append(c)
    def _has_try(self, i):
        return any(n['k'] == 'Try' for n in walk(self.E.info[i].f['body'])) if self.E.info[i].f.get('body') else False
    def graph(self, i):
        if i in self.g: return self.g[i]
        f = self.E.info[i].f; u = f['u']
        guards = {}     # id(node) -> list of handler tuples (innermost first): each a list of (type, catch node)
        def go(n, gs):
            st = [(n, gs)]
            while st:
                x, g = st.pop()
                if x['k'] == 'Try':
                    c = x['c']
                    st.append((c[0], (tuple((self.P.catch_type(u, h), id(h)) for h in c[1:]),) + g))
                    for h in c[1:]: st.append((h, g))
                    continue
                guards[id(x)] = g
                if x['k'] == 'Throw' and x.get('tt') is None: pass
                for c in children(x): st.append((c, g))
        for ini in f.get('inits', ()):
            if ini.get('e'): go(ini['e'], ())
        if f.get('body'): go(f['body'], ())
        # type of a rethrow: what its handler catches
        ret = {}
        for n in walk(f['body']) if f.get('body') else ():
            if n['k'] == 'Try':
                for h in n['c'][1:]:
                    for x in walk(h):
                        if x['k'] == 'Throw' and x.get('tt') is None: ret[id(x)] = (n, h)
        g = cfg.CFG(f)
        # node -> ([types escaping], {catch cfg index: True})
        hid = {id(n['h']): k for k, n in enumerate(g.nodes) if n['k'] == '#catch'}
        self.g[i] = (g, guards, hid, ret)
        return self.g[i]
    def node_types(self, i, n, ret):
        """exception types that may leave this node itself, per target function"""
        f = self.E.info[i].f; u = f['u']
        if n['k'] == 'Throw':
            if n.get('tt') is not None: return [(None, {bare(u.types[n['tt']][1])})]
            tr, h = ret.get(id(n), (None, None))
            if h is None: return []
            ct = self.P.catch_type(u, h)
            ts = set()
            for x in walk(tr['c'][0]):
                if x['k'] in ('Throw', 'Call', 'Con') and x is not n:
                    for _, t in self.node_types(i, x, ret): ts |= t
            return [(None, {t for t in ts if ct == '...' or self.P.derived(t, ct)})]
        out = []
        if n['k'] in ('Call', 'Con') and n.get('fn'):
            for t in self.P.targets(n):
                if self.P.throws.get(t): out.append((t, self.P.throws[t]))
        return out
    def analyse(self, i):
        fi = self.E.info[i]
        g, guards, hid, ret = self.graph(i)
        ins = [None] * len(g.nodes); ins[g.entry] = frozenset()
        taw = set()
        work = [g.entry]; inq = {g.entry}
        isv = ['&' not in fi.u.types[p['t']][1][-2:] for p in fi.f['params']]
        def vis(p):
            r = p[0]
            if r == 'this' or r[0] == 'g': return True
            if isinstance(r, str):
                k = int(r[1:]); return not isv[k] or '*' in p
            return False
        def kp(S): return {p for p in S if vis(p) and self.keep(p)}
        while work:
            k = work.pop(); inq.discard(k)
            n = g.nodes[k]; s = ins[k]; out = s
            nk = n['k']
            exc = {}
            if nk in ('Call', 'Con', 'Throw'):
                for t, types in self.node_types(i, n, ret):
                    pre = set(s)
                    if t is not None and t in self.T:
                        pre |= kp(self.E.subst(fi, n, self.T[t]))
                    for ty in types:
                        if not self.rel(ty): continue
                        caught = None
                        for level in guards.get(id(n), ()):
                            for ct, h in level:
                                if ct == '...' or self.P.derived(ty, ct): caught = h; break
                            if caught: break
                        if caught is None:
                            new = pre - taw
                            if new:
                                taw |= new
                                for p in new: self.why.setdefault((i, p), (n, t, ty))
                        else:
                            j = hid.get(caught)
                            if j is not None:
                                exc[j] = exc.get(j, frozenset()) | pre
                                if pre: self.hin.setdefault((i, caught), {}).update({p: (n, t, ty) for p in pre if (i, caught) not in self.hin or p not in self.hin[(i, caught)]})
            if nk == '#init':
                pass
            elif nk[0] != '#' and nk != 'Throw':
                w = kp(self.writes(fi, n))
                if nk == 'Call' and (n.get('n') in ('clear',)): pass
                if w: out = s | w
            def push(j, x):
                y = x if ins[j] is None else ins[j] | x
                if y != ins[j]:
                    ins[j] = y
                    if j not in inq: inq.add(j); work.append(j)
            for j, lab in g.succ[k]:
                if lab is not None and lab[0] == 'exc': continue
                push(j, out)
            for j, x in exc.items(): push(j, frozenset(x))
        return frozenset(taw)
