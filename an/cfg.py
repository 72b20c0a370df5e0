"""Control-flow graphs over the extracted syntax trees, and a forward dataflow solver."""
from src import children

NORETURN = {'abort', 'exit', '_exit', 'terminate', '__assert_fail', '__builtin_unreachable', 'quick_exit'}

class CFG:
    """nodes: list of syntax nodes (or ('entry',)...); succ[i]: list of (j, label)
    label: None, ('c', condition node, truth value), ('exc',) meaning the state before node i flows along the edge"""
    def __init__(self, f=None, body=None, inits=True):
        self.nodes = []; self.succ = []
        self.entry = self._new({'k': '#entry'})
        self.exit = self._new({'k': '#exit'})
        self.exc = self._new({'k': '#exc'})
        self.fr = [(self.entry, None)]
        self.brk = []; self.cont = []; self.handlers = []; self.labels = {}; self.gotos = []; self.cases = []
        if f is not None:
            if inits:
                for i in f.get('inits', ()):
                    if i.get('e') is not None: self.expr(i['e'])
                    self.emit({'k': '#init', 'i': None, 'init': i})
            body = f['body']
        self.stmt(body)
        self._join(self.exit)
        for g, name in self.gotos:
            if name in self.labels: self.succ[g].append((self.labels[name], None))
    def _new(self, n):
        self.nodes.append(n); self.succ.append([]); return len(self.nodes) - 1
    def _join(self, j):
        for i, l in self.fr: self.succ[i].append((j, l))
        self.fr = []
    def emit(self, n):
        j = self._new(n)
        for i, l in self.fr: self.succ[i].append((j, l))
        self.fr = [(j, None)]
        k = n['k']
        if k in ('Call', 'Con', 'New', 'Throw', 'Delete'):
            for h in (self.handlers[-1] if self.handlers else ()): self.succ[j].append((h, ('exc',)))
            if k == 'Throw' or k == 'Call' and n.get('n') in NORETURN:
                if k == 'Throw' and not self.handlers: self.succ[j].append((self.exc, None))
                self.fr = []
        return j
    def expr(self, n):
        if n is None: return
        k = n['k']
        if k == 'Bin' and n['op'] in ('&&', '||'):
            t, f = self.cond(n); self.fr = t + f; self.emit(n); return
        if k == 'Cond':
            t, f = self.cond(n['c'][0])
            self.fr = t; self.expr(n['c'][1]); a = self.fr
            self.fr = f; self.expr(n['c'][2]); self.fr = a + self.fr
            self.emit(n); return
        if k == 'Lambda': self.emit(n); return
        if k == 'SizeOf': self.emit(n); return
        if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or k == 'Call' and n.get('op') == '=':
            for c in reversed([c for c in n['c'] if c is not None]): self.expr(c)
            self.emit(n); return
        for c in children(n): self.expr(c)
        self.emit(n)
    def cond(self, n):
        """returns (true frontier, false frontier)"""
        if n is None: return self.fr, []
        k = n['k']
        if k == 'Bin' and n['op'] == '&&':
            t, f = self.cond(n['c'][0]); self.fr = t; t2, f2 = self.cond(n['c'][1]); return t2, f + f2
        if k == 'Bin' and n['op'] == '||':
            t, f = self.cond(n['c'][0]); self.fr = f; t2, f2 = self.cond(n['c'][1]); return t + t2, f2
        if k == 'Un' and n['op'] == '!':
            t, f = self.cond(n['c'][0]); return f, t
        if k == 'ICast': return self.cond(n['c'][0])
        v = n.get('v') if k in ('Bool', 'Int', 'Ref') else None
        if v is not None and k != 'Chr':
            try: b = int(v) != 0
            except ValueError: b = None
            if b is not None:
                fr = self.fr; self.fr = []
                return (fr, []) if b else ([], fr)
        self.expr(n)
        fr = self.fr; self.fr = []
        if len(fr) == 1:
            j = fr[0][0]
            return [(j, ('c', n, True))], [(j, ('c', n, False))]
        return fr, list(fr)
    def stmt(self, n):
        if n is None: return
        k = n['k']
        if k == 'Block':
            for c in n['c']: self.stmt(c)
        elif k == 'Decl':
            for v in n['c']: self.expr(v)
        elif k == 'If':
            if n.get('init'): self.stmt(n['init'])
            if n.get('cv'): self.stmt(n['cv'])
            t, f = self.cond(n['c'][0])
            self.fr = t; self.stmt(n['c'][1]); a = self.fr
            self.fr = f
            if n['c'][2] is not None: self.stmt(n['c'][2])
            self.fr = a + self.fr
        elif k == 'While':
            head = self.emit({'k': '#loop', 'l': n.get('l'), 'L': n})
            if n.get('cv'): self.stmt(n['cv'])
            t, f = self.cond(n['c'][0])
            self.brk.append([]); self.cont.append([])
            self.fr = t; self.stmt(n['c'][1]); self.fr += self.cont.pop()
            self._join(head); self.fr = f + self.brk.pop()
        elif k == 'Do':
            head = self.emit({'k': '#loop', 'l': n.get('l'), 'L': n})
            self.brk.append([]); self.cont.append([])
            self.stmt(n['c'][0]); self.fr += self.cont.pop()
            t, f = self.cond(n['c'][1])
            self.fr = t; self._join(head); self.fr = f + self.brk.pop()
        elif k == 'For':
            init, c, inc, body = n['c'][:4]
            if init is not None: self.stmt(init)
            head = self.emit({'k': '#loop', 'l': n.get('l'), 'L': n})
            if n.get('cv'): self.stmt(n['cv'])
            t, f = self.cond(c)
            self.brk.append([]); self.cont.append([])
            self.fr = t; self.stmt(body); self.fr += self.cont.pop()
            self.expr(inc); self._join(head); self.fr = f + self.brk.pop()
        elif k == 'Range':
            self.expr(n['c'][0])
            head = self.emit({'k': '#loop', 'l': n.get('l'), 'L': n})
            f = [(head, None)]
            self.brk.append([]); self.cont.append([])
            self.emit({'k': '#rvar', 'var': n['var'], 'rng': n['c'][0], 'l': n.get('l'), 'f': n.get('f')})
            self.stmt(n['c'][1]); self.fr += self.cont.pop()
            self._join(head); self.fr = f + self.brk.pop()
        elif k == 'Switch':
            if n.get('init'): self.stmt(n['init'])
            if n.get('cv'): self.stmt(n['cv'])
            self.expr(n['c'][0])
            sel = self.emit({'k': '#switch', 'sw': n})
            self.brk.append([]); self.cases.append((sel, [False], n))
            self.fr = []
            self.stmt(n['c'][1])
            s, d, _ = self.cases.pop()
            self.fr += self.brk.pop()
            if not d[0] and not self.exhaustive(n): self.fr.append((sel, None))
        elif k in ('Case', 'Default'):
            sel, d, sw = self.cases[-1]
            j = self._new({'k': '#case', 'c': n['c'][:1] if k == 'Case' else [], 'l': n.get('l'), 'f': n.get('f')})
            for i, l in self.fr: self.succ[i].append((j, l))
            self.succ[sel].append((j, ('case', n, sw)))
            self.fr = [(j, None)]
            if k == 'Default': d[0] = True
            self.stmt(n['c'][-1])
        elif k == 'Return':
            if n.get('c') and n['c'][0] is not None: self.expr(n['c'][0])
            self.emit(n); self._join(self.exit)
        elif k == 'Break':
            self.emit(n); self.brk[-1] += self.fr; self.fr = []
        elif k == 'Continue':
            self.emit(n); self.cont[-1] += self.fr; self.fr = []
        elif k == 'Goto':
            self.gotos.append((self.emit(n), n['n'])); self.fr = []
        elif k == 'Label':
            self.labels[n['n']] = self.emit({'k': '#label'}); self.stmt(n['c'][0])
        elif k == 'Try':
            hs = []
            for h in n['c'][1:]: hs.append(self._new({'k': '#catch', 'h': h, 'l': h.get('l'), 'f': h.get('f')}))
            outer = self.handlers[-1] if self.handlers else []
            catchall = any(h.get('ct') is None for h in n['c'][1:])
            self.handlers.append(hs if catchall else hs + outer)
            self.stmt(n['c'][0])
            self.handlers.pop()
            out = self.fr
            for j, h in zip(hs, n['c'][1:]):
                self.fr = [(j, None)]
                for c in h['c']: self.stmt(c)
                out = out + self.fr
            self.fr = out
        elif k == 'Nop': pass
        elif k == 'Var': self.expr(n)
        else: self.expr(n)
    def exhaustive(self, n): return False

def solve(g, init, transfer, join, edge=None, limit=200000):
    """forward dataflow; states are compared with ==, None is unreachable. returns in-states"""
    ins = [None] * len(g.nodes)
    ins[g.entry] = init
    work = [g.entry]; inq = {g.entry}
    steps = 0
    while work:
        i = work.pop(); inq.discard(i)
        steps += 1
        if steps > limit: raise RuntimeError('dataflow did not converge')
        s = ins[i]
        out = transfer(i, g.nodes[i], s)
        for j, lab in g.succ[i]:
            x = s if lab is not None and lab[0] == 'exc' else out
            if edge is not None and lab is not None and lab[0] != 'exc' and x is not None: x = edge(lab, x)
            if x is None: continue
            y = x if ins[j] is None else join(ins[j], x)
            if y != ins[j]:
                ins[j] = y
                if j not in inq: inq.add(j); work.append(j)
    return ins
