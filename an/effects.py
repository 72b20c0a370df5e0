"""Effect analysis: which locations (access paths) each function may read, write
or structurally change, computed bottom-up over the whole call graph.

A path is a tuple: root, then field names, '[]' for a container element and '*'
for what a pointer, iterator or smart pointer designates.  Roots are 'this',
'p0','p1',.. (parameters), ('l',id) locals, ('g',name) globals and statics.
"""
import re, collections
from src import children, walk
from prog import strip, bare

MAXLEN = 6
GROW = {'push_back', 'emplace_back', 'resize', 'reserve', 'insert', 'emplace', 'assign', 'clear', 'erase', 'pop_back',
        'push', 'pop', 'push_front', 'pop_front', 'emplace_front', 'shrink_to_fit', 'merge', 'splice', 'append', 'swap',
        'operator=', 'unique', 'remove', 'remove_if', 'reset', 'release', 'rehash'}
ELEM = {'operator[]', 'at', 'front', 'back', 'top'}
ITER = {'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'crbegin', 'crend', 'find', 'lower_bound', 'upper_bound', 'insert',
        'emplace', 'erase', 'data', 'equal_range', 'before_begin', 'insert_after', 'emplace_after', 'c_str'}
PASS = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::__addressof', 'std::as_const', 'std::next', 'std::prev'}
RETITER = {'std::lower_bound', 'std::upper_bound', 'std::find', 'std::find_if', 'std::max_element', 'std::min_element', 'std::copy',
           'std::transform', 'std::remove_if', 'std::remove', 'std::unique', 'std::partition', 'std::set_difference', 'std::begin', 'std::end'}

RO_ALG = {'std::' + x for x in ('lower_bound upper_bound equal_range binary_search find find_if count count_if equal is_sorted includes any_of all_of none_of accumulate distance max_element min_element lexicographical_compare'.split())}

def isref(t): return t.endswith('&')
def isptr(t):
    t = re.sub(r'( const| volatile)+$', '', t)
    return t.endswith('*')

class FnInfo:
    __slots__ = ('f', 'u', 'parm', 'env', 'vt', 'R', 'W', 'G', 'rl', 'rp', 'deps', 'lam')

class Effects:
    def __init__(self, P, only=None):
        self.P = P
        self.info = {}
        for i, f in P.fns.items():
            fi = FnInfo(); fi.f = f; fi.u = f['u']
            fi.parm = {p['d']: k for k, p in enumerate(f['params'])}
            fi.env = {}; fi.vt = {}
            fi.R = set(); fi.W = set(); fi.G = set(); fi.rl = set(); fi.rp = set(); fi.lam = set()
            self.info[i] = fi
            if f.get('n') in ('begin', 'rbegin', 'wbegin') and 'ret' in f and f.get('cls') and 'iterator' in f['u'].types[f['ret']][1]:
                fi.rp.add(('this', '*'))        # what a container's iterator gives access to is part of the container
        self._fix()

    # ---------- abstract locations
    def T(self, fi, n): return fi.u.types[n['t']][1] if 't' in n else ''

    def add(self, S, x):
        return {p + (x,) if len(p) < MAXLEN else p for p in S}

    def den(self, fi, n):
        """lvalue paths of a glvalue expression (empty: temporary)"""
        k = n['k']
        if k == 'Ref':
            dk = n.get('dk')
            if dk == 'parm':
                if n['d'] in fi.parm: return {('p%d' % fi.parm[n['d']],)}
                e = fi.env.get(n['d'])
                return set(e) if e and n['d'] in fi.lam else {(('l', n['d']),)}
            if dk in ('local', 'binding'):
                if fi.vt.get(n['d']) == 'ref':
                    return set(fi.env.get(n['d'], ()))
                return {(('l', n['d']),)}
            if dk == 'slocal': return {(('g', fi.f['q'] + '::' + n['q']),)}
            if dk == 'global': return {(('g', n['q']),)}
            return set()
        if k == 'Mem':
            if not n.get('fld'):
                if n.get('d'): return set()
                return {(('g', n['q']),)}
            b = n['c'][0]
            S = self.ptr(fi, b) if n.get('arrow') else self.den(fi, b)
            return self.add(S, n['n'])
        if k == 'Un':
            if n['op'] == '*': return self.ptr(fi, n['c'][0])
            if n['op'] in ('++', '--'): return self.den(fi, n['c'][0])
            return set()
        if k == 'Sub':
            b = n['c'][0]
            t = self.T(fi, b)
            if isptr(t): return self.ptr(fi, b)
            return self.add(self.den(fi, b), '[]')
        if k in ('ICast', 'Cast'): return self.den(fi, n['c'][0])
        if k == 'Cond': return self.den(fi, n['c'][1]) | self.den(fi, n['c'][2])
        if k == 'Bin':
            if n['op'] == ',': return self.den(fi, n['c'][1])
            if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='): return self.den(fi, n['c'][0])
            return set()
        if k == 'Call':
            return self.call_ret(fi, n)[0]
        if k in ('DefArg', 'DefInit'): return set()
        return set()

    def ptr(self, fi, n):
        """pointee paths of a pointer-like expression"""
        k = n['k']
        if k == 'This': return {('this',)}
        if k == 'Ref':
            dk = n.get('dk')
            if dk == 'parm' and n['d'] in fi.parm: return {('p%d' % fi.parm[n['d']], '*')}
            if dk in ('local', 'binding', 'parm'):
                e = fi.env.get(n['d'])
                if fi.vt.get(n['d']) == 'ref': return self.add(e or (), '*')
                if e: return set(e)
                return {(('l', n['d']), '*')}
            return self.add(self.den(fi, n), '*')
        if k in ('Mem', 'Sub'): return self.add(self.den(fi, n), '*')
        if k == 'Un':
            if n['op'] == '&': return self.den(fi, n['c'][0])
            if n['op'] == '*': return self.add(self.den(fi, n), '*')
            return self.ptr(fi, n['c'][0])
        if k in ('ICast', 'Cast'): return self.ptr(fi, n['c'][0])
        if k == 'Cond': return self.ptr(fi, n['c'][1]) | self.ptr(fi, n['c'][2])
        if k == 'Bin':
            if n['op'] == ',': return self.ptr(fi, n['c'][1])
            if n['op'] in ('+', '-', '+=', '-='): return self.ptr(fi, n['c'][0]) | (self.ptr(fi, n['c'][1]) if n['op'] == '+' and isptr(self.T(fi, n['c'][1])) else set())
            if n['op'] == '=': return self.ptr(fi, n['c'][1])
            return set()
        if k == 'Con':
            a = [x for x in n.get('c', ()) if x is not None and x['k'] != 'DefArg']
            if len(a) == 1 and (n.get('cp') or n.get('mv') or n.get('q', '').startswith(('std::', '__gnu'))): return self.ptr(fi, a[0])
            if 'iterator' in n.get('q', '').split('::')[-1]:      # a hand-made iterator designates what it is made from
                S = set()
                pt = n.get('pt', '')
                for i, x in enumerate(a):
                    t = self.T(fi, x)
                    if isptr(t) or 'iterator' in t: S |= self.ptr(fi, x)
                    elif i < len(pt) and pt[i] in 'rc': S |= self.den(fi, x)
                return S
            return set()
        if k == 'Call': 
            L, Q = self.call_ret(fi, n)
            return Q | (self.add(L, '*') if not Q else set())
        if k == 'InitList' and len([x for x in n.get('c', ())]) == 1 and n['c'][0]: return self.ptr(fi, n['c'][0])
        return set()

    def args(self, n):
        """(object node or None, [argument nodes])"""
        c = [x for x in n.get('c', ())]
        if n.get('m') or n.get('om'): return c[0], c[1:]
        return None, c

    def objpaths(self, fi, n):
        o, _ = self.args(n)
        if o is None: return set()
        return self.ptr(fi, o) if n.get('arrow') else self.den(fi, o)

    def subst(self, fi, n, S):
        """substitute caller paths for roots of summary paths S at call n"""
        if not S: return set()
        o, a = self.args(n)
        if n['k'] == 'Con': o = None; a = n.get('c', [])
        cache = {}
        out = set()
        pt = n.get('pt', '')
        for p in S:
            r = p[0]
            if r == 'this':
                if 'this' not in cache:
                    cache['this'] = self.objpaths(fi, n) if n['k'] != 'Con' else set()
                for b in cache['this']: out.add((b + p[1:])[:MAXLEN])
            elif isinstance(r, str):
                i = int(r[1:])
                if i >= len(a) or a[i] is None: continue
                x = a[i]
                if len(p) > 1 and p[1] == '*' :
                    key = ('*', i)
                    if key not in cache: cache[key] = self.ptr(fi, x)
                    for b in cache[key]: out.add((b + p[2:])[:MAXLEN])
                elif i < len(pt) and pt[i] == 'v':
                    if '*' not in p: continue     # a copy
                    key = ('v', i)                # what a copy designates
                    if key not in cache: cache[key] = (self.den(fi, x), self.ptr(fi, x))
                    for b in cache[key][0]: out.add((b + p[1:])[:MAXLEN])
                    if not cache[key][0]:
                        for b in cache[key][1]: out.add((b + p[p.index('*') + 1:])[:MAXLEN])
                else:
                    if i not in cache: cache[i] = self.den(fi, x)
                    for b in cache[i]: out.add((b + p[1:])[:MAXLEN])
            elif r[0] == 'g': out.add(p)
        return out

    def call_ret(self, fi, n):
        fn = n.get('fn')
        if fn is None: return set(), set()
        ts = [t for t in self.P.targets(n) if t in self.info]
        if ts and not n.get('q', '').startswith('std::'):
            L = set(); Q = set()
            for t in ts:
                g = self.info[t]
                L |= self.subst(fi, n, g.rl); Q |= self.subst(fi, n, g.rp)
            return L, Q
        nm = n.get('n'); q = strip(n.get('q', ''))
        o, a = self.args(n)
        if o is not None or n.get('op'):
            if o is None: o = a[0] if a else None
            if o is None: return set(), set()
            op = n.get('op')
            tn = self.T(fi, o)
            if op == '*':
                return self.ptr(fi, o), set()
            if op == '->': return set(), self.ptr(fi, o)
            if op in ('++', '--', '+', '-', '+=', '-='):
                return (self.den(fi, o) if op in ('++', '--', '+=', '-=') else set()), self.ptr(fi, o)
            if op == '=': return self.den(fi, o), self.ptr(fi, n['c'][1]) if len(n['c']) > 1 and n['c'][1] else set()
            if op == '<<' or op == '>>': return self.den(fi, o), set()
            base = self.objpaths(fi, n) if n.get('m') else self.den(fi, o)
            if nm == 'get_deleter': return self.add(base, '#del'), set()
            if nm in ELEM:
                if op == '[]' and 'iterator' in tn: return self.ptr(fi, o), set()
                return self.add(base, '[]'), set()
            if nm in ITER: return set(), self.add(base, '[]')
            if nm in ('get', 'operator->'): return set(), self.add(base, '*') if n.get('arrow') else self.ptr(fi, o)
            if nm == 'release': return set(), self.ptr(fi, o)
            if nm == 'base': return set(), self.ptr(fi, o)
            if nm in ('lock',): return set(), self.ptr(fi, o)
            return set(), set()
        if q in PASS and a: return self.den(fi, a[0]), self.ptr(fi, a[0])
        if q in ('std::back_inserter', 'std::front_inserter', 'std::inserter') and a: return set(), self.add(self.den(fi, a[0]), '[]')
        if q == 'std::get' and a: return self.add(self.den(fi, a[0]), 'get' + n.get('ta', '')[:4]), set()
        if q in RETITER and a:
            S = set()
            if q in ('std::copy', 'std::transform'):
                S |= self.ptr(fi, a[2 if q == 'std::copy' else len(a) - 2])
            else: S |= self.ptr(fi, a[0]) if q not in ('std::begin', 'std::end') else self.add(self.den(fi, a[0]), '[]')
            return set(), S
        if q in ('std::min', 'std::max') and len(a) >= 2: return self.den(fi, a[0]) | self.den(fi, a[1]), set()
        return set(), set()

    # ---------- effects of one node (not its children)
    def effects(self, fi, n):
        """list of (kind, path) with kind r/w/g for this node only"""
        k = n['k']; out = []
        if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
            for p in self.den(fi, n['c'][0]): out.append(('w', p))
        elif k == 'Un' and n['op'] in ('++', '--'):
            for p in self.den(fi, n['c'][0]): out.append(('w', p))
        elif k in ('Call', 'Con'):
            fn = n.get('fn')
            if fn is None: return out
            ts = [t for t in self.P.targets(n) if t in self.info]
            if ts and not n.get('q', '').startswith('std::'):
                for t in ts:
                    g = self.info[t]
                    for kind, S in (('r', g.R), ('w', g.W), ('g', g.G)):
                        for p in self.subst(fi, n, S): out.append((kind, p))
                return out
            if k == 'Con':
                pt = n.get('pt', '')
                for i, x in enumerate(n.get('c', ())):
                    if x is None: continue
                    if i < len(pt) and pt[i] == 'm' :
                        for p in self.den(fi, x): out.append(('w', p)); out.append(('g', p))
                return out
            nm = n.get('n'); o, a = self.args(n); op = n.get('op'); pt = n.get('pt', '')
            q = strip(n.get('q', ''))
            if o is not None or op:
                if o is None:
                    o = a[0] if a else None; a = a[1:]
                    pt = pt[1:]
                if o is None: return out
                base = self.objpaths(fi, n) if n.get('m') else self.den(fi, o)
                if op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '++', '--') or (op in ('<<', '>>') and 'stream' in self.T(fi, o)):
                    for p in base: out.append(('w', p))
                    if op == '=':
                        for p in base: out.append(('g', p))
                elif n.get('m') and not n.get('cm') and not n.get('smeth') and nm not in ELEM and nm not in (ITER - GROW) and (nm != 'get' or 'stream' in self.T(fi, o)) and nm not in ('lock', 'base', 'rdbuf', 'get_deleter'):
                    for p in base:
                        out.append(('w', p))
                        if nm in GROW: out.append(('g', p))
            for i, x in enumerate(a):
                if x is None or i >= len(pt): continue
                c = pt[i]
                if c == 'r' and not q.startswith('std::forward') and q not in PASS and q not in ('std::min', 'std::max', 'std::begin', 'std::end', 'std::get', 'std::tie'):
                    for p in self.den(fi, x):
                        out.append(('w', p))
                        if nm in ('swap',): out.append(('g', p))
                elif c == 'p' and q not in PASS and q not in RO_ALG and not (o is not None and nm in ('unique_ptr', 'reset')):
                    for p in self.ptr(fi, x): out.append(('w', p))
                elif c == 'm' and q not in PASS:
                    for p in self.den(fi, x): out.append(('w', p)); out.append(('g', p))
            if q in ('std::sort', 'std::stable_sort', 'std::reverse', 'std::fill', 'std::iota', 'std::rotate', 'std::next_permutation', 'std::remove_if', 'std::unique', 'std::make_heap', 'std::push_heap', 'std::pop_heap', 'std::partition', 'std::advance', 'std::iter_swap') and a:
                for p in self.ptr(fi, a[0]): out.append(('w', p))
            if q in ('std::copy', 'std::copy_backward', 'std::move_backward') and len(a) > 2:
                for p in self.ptr(fi, a[2]): out.append(('w', p))
            if q == 'std::transform' and len(a) > 3:
                for p in self.ptr(fi, a[-2]): out.append(('w', p))
        return out

    # ---------- walking a function
    def bind(self, fi, n):
        """record bindings made by declaration-like node; True if changed"""
        ch = False
        k = n['k']
        def upd(d, S, kind):
            nonlocal ch
            old = fi.env.get(d)
            if old is None: fi.env[d] = set(S); ch = ch or bool(S)
            elif not S <= old: old |= S; ch = True
            if kind and fi.vt.get(d) != kind: fi.vt[d] = kind; ch = True
        if k == 'Var':
            t = self.T(fi, n); i = n.get('i')
            if n.get('static'): return False
            if isref(t):
                S = self.den(fi, i) if i is not None else set()
                if not S: S = {(('l', n['d']),)}
                upd(n['d'], S, 'ref')
            elif i is not None:
                S = self.ptr(fi, i)
                if S: upd(n['d'], S, None)
        elif k == 'Range':
            v = n['var']; t = self.T(fi, v)
            S = self.add(self.den(fi, n['c'][0]), '[]')
            if isref(t): upd(v['d'], S or {(('l', v['d']),)}, 'ref')
            else: upd(v['d'], self.add(S, '*'), None)
        elif k == 'Bin' and n['op'] == '=' or (k == 'Call' and n.get('op') == '=' and len(n.get('c', ())) == 2):
            l = n['c'][0]
            while l['k'] in ('ICast', 'Cast'): l = l['c'][0]
            if l['k'] == 'Ref' and l.get('dk') == 'local' and fi.vt.get(l['d']) != 'ref':
                S = self.ptr(fi, n['c'][1])
                if S: upd(l['d'], S, None)
        elif k == 'Lambda':
            for p in n.get('params', ()):
                fi.lam.add(p['d'])
        return ch

    def nodes(self, f):
        for i in f.get('inits', ()):
            if i.get('e'): yield from walk(i['e'])
        if f.get('body'): yield from walk(f['body'])

    def analyse(self, i):
        fi = self.info[i]; f = fi.f
        ns = self._ns.get(i)
        if ns is None:
            ns = self._ns[i] = [n for n in self.nodes(f) if n['k'] in ('Var', 'Range', 'Bin', 'Call', 'Con', 'Un', 'Lambda', 'Return', 'Ref', 'Mem', 'Delete')]
        for _ in range(3):
            ch = False
            for n in ns:
                if self.bind(fi, n): ch = True
            if not ch: break
        R = set(); W = set(); G = set(); rl = set(); rp = set()
        for n in ns:
            k = n['k']
            if k in ('Ref', 'Mem'):
                for p in self.den(fi, n): R.add(p)
                continue
            if k == 'Return':
                if n.get('c') and n['c'][0] is not None and n.get('inlam') is None:
                    rt = fi.u.types[f['ret']][1]
                    if isref(rt): rl |= self.den(fi, n['c'][0])
                    else: rp |= self.ptr(fi, n['c'][0])
                continue
            for kind, p in self.effects(fi, n):
                (R if kind == 'r' else W if kind == 'w' else G).add(p)
        for ini in f.get('inits', ()):
            if ini.get('fld'): W.add(('this', ini['fld']))
        isv = ['&' not in fi.u.types[p['t']][1][-2:] for p in f['params']]
        def vis(S):
            o = set()
            for p in S:
                r = p[0]
                if r == 'this': o.add(p)
                elif isinstance(r, str):
                    k = int(r[1:])
                    if isv[k] and '*' not in p: continue
                    o.add(p)
                elif r[0] == 'g': o.add(p)
                elif '*' in p and r[1] in fi.env and fi.vt.get(r[1]) != 'ref':      # through an iterator or pointer kept in a local
                    rest = p[p.index('*') + 1:]
                    for e in fi.env[r[1]]:
                        q = (e + rest)[:MAXLEN]; z = q[0]
                        if z == 'this' or isinstance(z, tuple) and z[0] == 'g' or isinstance(z, str) and (not isv[int(z[1:])] or '*' in q): o.add(q)
            return o
        R, W, G, rl, rp = vis(R), vis(W), vis(G), vis(rl), vis(rp)
        new = not (R <= fi.R and W <= fi.W and G <= fi.G and rl <= fi.rl and rp <= fi.rp)
        fi.R |= R; fi.W |= W; fi.G |= G; fi.rl |= rl; fi.rp |= rp
        return new

    def _fix(self):
        self._ns = {}
        # bottom-up order: post-order over the call graph
        order = []; seen = set()
        for s in self.info:
            if s in seen: continue
            st = [(s, iter(self.P.callees.get(s, ())))]; seen.add(s)
            while st:
                x, it = st[-1]
                for y in it:
                    if y in self.info and y not in seen:
                        seen.add(y); st.append((y, iter(self.P.callees.get(y, ())))); break
                else:
                    order.append(x); st.pop()
        pos = {x: k for k, x in enumerate(order)}
        import heapq
        work = list(range(len(order))); inq = set(work); cnt = collections.Counter()
        while work:
            k = heapq.heappop(work); inq.discard(k); i = order[k]
            cnt[i] += 1
            if cnt[i] > 12: continue
            if self.analyse(i):
                for c in self.P.callers.get(i, ()):
                    if c in pos and pos[c] not in inq: inq.add(pos[c]); heapq.heappush(work, pos[c])
