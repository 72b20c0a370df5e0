"""Decision of comparison functions over the finite domain of relations.

A two-operand comparison function is evaluated abstractly: its operands A and B
are touched only through corresponding projections (fields, accessors,
elements), and a comparison of projection e(A) with e(B) has one of the three
outcomes lt, eq, gt.  All combinations of outcomes of the projections that occur
are enumerated, which decides exactly whether the function is an equality, its
negation, or a strict weak ordering of the projections.
"""
import itertools, re
from src import walk, children
from prog import strip, bare
import lib

class Undecided(Exception): pass
class Mismatch(Exception):
    def __init__(s, node, msg): s.node = node; s.msg = msg
class Need(Exception):
    def __init__(s, key, dom): s.key = key; s.dom = dom

REL = ('lt', 'eq', 'gt')
COMM = {'*', '+', '&', '|', '^', '==', '!='}
A, B = ('A',), ('B',)

def swap(t):
    if t == A: return B
    if t == B: return A
    if isinstance(t, tuple):
        r = tuple(swap(x) if isinstance(x, tuple) else x for x in t)
        if len(r) == 3 and r[0] in COMM and repr(r[2]) < repr(r[1]): r = (r[0], r[2], r[1])
        return r
    return t
def sides(t):
    if t == A: return {'A'}
    if t == B: return {'B'}
    if isinstance(t, tuple):
        r = set()
        for x in t:
            if isinstance(x, tuple): r |= sides(x)
        return r
    return set()

EMPTYISH = ('empty', 'is_zero', 'isZero')


class Eval:
    """value domain: ('val', term) | ('bool', b) | ('int', n) | ('diff', key, sign) | ('rel'...)"""
    def __init__(self, P, depth=6):
        self.P = P; self.asg = {}; self.depth = depth; self.fields = set(); self.steps = 0; self.loops = []

    # ---- relation lookup
    def rel(self, x, y):
        """relation of terms x,y : 'lt','eq','gt'"""
        if x == y: return 'eq'
        if swap(x) != y:
            raise Undecided('compares %s with %s' % (show(x), show(y)))
        if repr(x) <= repr(y): key, flip = x, False
        else: key, flip = y, True
        k = ('rel', key)
        if k not in self.asg: raise Need(k, REL)
        r = self.asg[k]
        if flip and r != 'eq': r = 'gt' if r == 'lt' else 'lt'
        return r
    def boolean(self, t):
        s = sides(t)
        if not s: 
            k = ('free', t)
        else: k = ('bool', t)
        if k not in self.asg: raise Need(k, (False, True))
        return self.asg[k]

    # ---- expressions
    def term(self, v, n=None):
        if v[0] == 'val': return v[1]
        if v[0] == 'int': return ('#', v[1])
        if v[0] == 'bool': return ('#', int(v[1]))
        if v[0] == 'diff': return ('-', v[1], v[2])
        raise Undecided('term of %s' % (v,))

    def ev(self, n, env, u):
        self.steps += 1
        if self.steps > 20000: raise Undecided('too long')
        k = n['k']
        if k in ('DefArg', 'DefInit'): return self.ev(n['c'][0], env, u)
        if k in ('ICast', 'Cast'):
            v = self.ev(n['c'][0], env, u)
            ck = n.get('ck')
            if ck == 'IntegralCast' and v[0] == 'val':
                # narrowing keeps correspondence: same conversion on both sides
                return v
            if ck == 'IntegralToBoolean' and v[0] == 'val': return self.nonzero(v)
            if ck == 'ConstructorConversion' or ck == 'UserDefinedConversion': return v
            return v
        if k == 'This':
            if 'this' not in env: raise Undecided('this')
            return env['this']
        if k == 'Ref':
            if n.get('d') in env and n.get('dk') != 'global': return env[n['d']]
            if n.get('v') is not None and n.get('dk') in ('global', 'local', 'slocal'): return ('int', int(n['v']))
            if n.get('dk') == 'enum' or n.get('dk') == 'other': return ('val', ('enum', n.get('q')))
            return ('val', ('glob', n.get('q'), n.get('d')))
        if k in ('Int', 'Chr'): return ('int', int(n['v']))
        if k == 'Bool': return ('bool', bool(n['v']))
        if k == 'SizeOf': return ('val', ('sizeof', u.types[n['at']][1], n.get('v')))
        if k == 'Un':
            op = n['op']
            if op in ('*',):
                v = self.ev(n['c'][0], env, u)
                t = self.term(v)
                if isinstance(t, tuple) and t[0] == '&': return ('val', t[1])
                if t in (A, B): return v      # *this
                return ('val', ('*', t))
            if op == '&': 
                t = self.term(self.ev(n['c'][0], env, u)); return ('val', t if t in (A, B) else ('&', t))
            if op == '!':
                return ('bool', not self.truth(n['c'][0], env, u))
            if op in ('++', '--'):
                l = lib.unwrap(n['c'][0])
                if l['k'] == 'Ref' and l['d'] in env:
                    v = env[l['d']]
                    if v[0] == 'int': env[l['d']] = ('val', ('idx', l['d']))
                    return env[l['d']]
                raise Undecided('increment')
            if op in ('-', '~', '+'):
                v = self.ev(n['c'][0], env, u)
                if v[0] == 'int' and op == '-': return ('int', -v[1])
                if v[0] == 'diff' and op == '-': return ('diff', v[1], -v[2])
                return ('val', (op, self.term(v)))
            raise Undecided('unary ' + op)
        if k == 'Mem':
            v = self.ev(n['c'][0], env, u)
            t = self.term(v)
            if t[0] == '&': t = t[1]
            if n.get('fld'): self.fields.add((t, n['n']))
            return ('val', ('.', t, n['n']))
        if k == 'Sub':
            return ('val', ('[]', self.term(self.ev(n['c'][0], env, u)), self.term(self.ev(n['c'][1], env, u))))
        if k == 'Cond':
            return self.ev(n['c'][1] if self.truth(n['c'][0], env, u) else n['c'][2], env, u)
        if k == 'Bin':
            return self.binop(n, n['op'], n['c'][0], n['c'][1], env, u)
        if k == 'Con':
            a = [x for x in n.get('c', ()) if x is not None]
            if len(a) == 1: return self.ev(a[0], env, u)
            if not a: return ('val', ('new', n.get('q')))
            return ('val', ('new', n.get('q')) + tuple(self.term(self.ev(x, env, u)) for x in a))
        if k == 'InitList':
            a = [x for x in n.get('c', ()) if x is not None]
            if len(a) == 1: return self.ev(a[0], env, u)
            return ('val', ('list',) + tuple(self.term(self.ev(x, env, u)) for x in a))
        if k == 'Call': return self.call(n, env, u)
        raise Undecided('expression ' + k)

    def nonzero(self, v):
        if v[0] == 'bool': return v
        if v[0] == 'int': return ('bool', v[1] != 0)
        if v[0] == 'diff':
            return ('bool', self.relkey(v) != 'eq')
        return ('bool', self.boolean(v[1]))
    def relkey(self, v):
        """relation represented by difference value"""
        k = ('rel', v[1])
        if k not in self.asg: raise Need(k, REL)
        r = self.asg[k]
        if v[2] < 0 and r != 'eq': r = 'gt' if r == 'lt' else 'lt'
        return r
    def truth(self, n, env, u):
        return self.nonzero(self.ev(n, env, u))[1]

    def mkdiff(self, x, y):
        if swap(x) != y or x == y: return None
        return ('diff', x, 1) if repr(x) <= repr(y) else ('diff', y, -1)

    def compare(self, op, v, w, n):
        # difference against zero
        for a, b, o in ((v, w, op), (w, v, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
            if a[0] == 'diff' and b == ('int', 0):
                r = self.relkey(a)
                return ('bool', {'==': r == 'eq', '!=': r != 'eq', '<': r == 'lt', '>': r == 'gt', '<=': r != 'gt', '>=': r != 'lt'}[o])
        if v[0] == 'int' and w[0] == 'int':
            return ('bool', {'==': v[1] == w[1], '!=': v[1] != w[1], '<': v[1] < w[1], '>': v[1] > w[1], '<=': v[1] <= w[1], '>=': v[1] >= w[1]}[op])
        if v[0] == 'bool' and w[0] == 'bool':
            a, b = v[1], w[1]
            return ('bool', {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[op])
        if v[0] == 'bool' or w[0] == 'bool':
            if op in ('==', '!='):
                a = self.nonzero(v)[1]; b = self.nonzero(w)[1]
                return ('bool', (a == b) == (op == '=='))
        x, y = self.term(v), self.term(w)
        sx, sy = sides(x), sides(y)
        if sx and sy:
            if sx == {'A'} and sy == {'B'} or sx == {'B'} and sy == {'A'}:
                if swap(x) != y: raise Mismatch(n, 'compares %s of one operand with %s of the other' % (show(x), show(y)))
            elif sx == sy and len(sx) == 1 and x != y:
                if x[0] in ('#',) or y[0] in ('#',): pass
                t = ('cmp', op, x, y)     # predicate about one operand
                return ('bool', self.boolean(t))
            r = self.rel(x, y)
            return ('bool', {'==': r == 'eq', '!=': r != 'eq', '<': r == 'lt', '>': r == 'gt', '<=': r != 'gt', '>=': r != 'lt'}[op])
        if op == '!=': return ('bool', not self.boolean(('cmp', '==', x, y)))
        return ('bool', self.boolean(('cmp', op, x, y)))

    def binop(self, n, op, ln, rn, env, u):
        if op == '&&': return ('bool', self.truth(ln, env, u) and self.truth(rn, env, u))
        if op == '||': return ('bool', self.truth(ln, env, u) or self.truth(rn, env, u))
        if op == ',': self.ev(ln, env, u); return self.ev(rn, env, u)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, self.ev(ln, env, u), self.ev(rn, env, u), n)
        if op == '=':
            v = self.ev(rn, env, u); l = lib.unwrap(ln)
            if l['k'] == 'Ref' and l.get('dk') in ('local', 'parm'): env[l['d']] = v; return v
            raise Undecided('assignment')
        if op.endswith('=') and op not in ('<=', '>='):
            l = lib.unwrap(ln)
            if l['k'] == 'Ref' and l.get('dk') in ('local', 'parm') and l['d'] in env:
                v = self.arith(op[:-1], env[l['d']], self.ev(rn, env, u)); env[l['d']] = v; return v
            raise Undecided('assignment')
        return self.arith(op, self.ev(ln, env, u), self.ev(rn, env, u))

    def arith(self, op, v, w):
        x, y = self.term(v), self.term(w)
        if op == '-':
            d = self.mkdiff(x, y)
            if d: return d
        if op in COMM and repr(y) < repr(x): x, y = y, x
        return ('val', (op, x, y))

    def call(self, n, env, u):
        c = n['c']; op = n.get('op'); q = strip(n.get('q', '')); name = n.get('n', '')
        fn = n.get('fn')
        if op == '!' and len(c) == 1: return ('bool', not self.truth(c[0], env, u))
        if op in ('&&', '||', ',') and len(c) == 2: return self.binop(n, op, c[0], c[1], env, u)
        body = self.P.fns.get(fn) if fn and not n.get('virt') else None
        args = [self.ev(x, env, u) if x is not None else ('val', ('none',)) for x in c]
        if op in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
            x, y = self.term(args[0]), self.term(args[1])
            if x in (A, B) and y in (A, B) and body is not None:
                return self.inline(body, n, args)
            return self.compare(op, args[0], args[1], n)
        if name.startswith('operator') and n.get('m') and name[8:] in ('==', '!=', '<', '>', '<=', '>=') and len(args) == 2:
            x, y = self.term(args[0]), self.term(args[1])
            if x in (A, B) and y in (A, B) and body is not None: return self.inline(body, n, args)
            return self.compare(name[8:], args[0], args[1], n)
        if op == '[]' and len(args) == 2 and body is not None and simple_return(body) is not None:
            try: return self.inline(body, n, args)
            except Undecided: pass
        if op == '[]' and len(args) == 2: return ('val', ('[]', self.term(args[0]), self.term(args[1])))
        if op == '*' and len(args) == 1:
            return ('val', ('*', self.term(args[0])))
        if op == '->': return ('val', ('&', ('*', self.term(args[0]))))
        if op == '++' or op == '--':
            l = lib.unwrap(c[0])
            return args[0]
        if op == '=' and len(args) == 2:
            l = lib.unwrap(c[0])
            if l['k'] == 'Ref' and l.get('dk') == 'local': env[l['d']] = args[1]; return args[1]
        if op == '-' and len(args) == 2:
            return self.arith('-', args[0], args[1])
        if op in ('*', '+', '&', '|', '^', '/', '%') and len(args) == 2: return self.arith(op, args[0], args[1])
        if op == '-' and len(args) == 1: return ('val', ('neg', self.term(args[0])))
        if q in ('std::move', 'std::forward', 'std::as_const'): return args[0]
        if name in ('is_zero', 'isZero') and len(args) == 1 and args[0][0] == 'diff': return ('bool', self.relkey(args[0]) == 'eq')
        if name in ('is_negative',) and len(args) == 1 and args[0][0] == 'diff': return ('bool', self.relkey(args[0]) == 'lt')
        if q in ('memcmp', 'strcmp', 'std::memcmp', 'std::strcmp', 'std::string::compare') or name == 'compare' and n.get('m'):
            x, y = self.term(args[0]), self.term(args[1])
            if swap(x) != y:
                if sides(x) and sides(y): raise Mismatch(n, '%s compares %s with %s' % (q, show(x), show(y)))
                raise Undecided(q)
            if len(args) == 3: self.memsize = (x, self.term(args[2]), n)
            return self.mkdiff(x, y) or ('int', 0)
        if q in ('std::equal', 'std::lexicographical_compare'):
            ts = [self.term(a) for a in args]
            if len(ts) >= 3 and ts[0][0] == 'call' and q == 'std::equal':
                x = ts[0]; y = ts[2]
                if not (ts[1][:1] == ('call',) and len(ts[1]) > 2 and ts[1][1] in ('end', 'cend') and ts[1][2:] == x[2:]): raise Mismatch(n, 'std::equal does not cover the whole container')
                if swap(x) == y: return ('bool', self.rel(x, y) == 'eq')
            if len(ts) == 4 and q.startswith('std::lex') and swap(ts[0]) == ts[2]: return ('bool', self.rel(ts[0], ts[2]) == 'lt')
            raise Undecided(q)
        if q == 'std::tie' or q == 'std::make_pair' or q == 'std::make_tuple':
            return ('val', ('tuple',) + tuple(self.term(a) for a in args))
        # inline simple accessors so that fields are seen
        if body is not None and self.depth > 0 and not body['u'].loc(body).startswith('?'):
            st = simple_return(body)
            if st is not None:
                try: return self.inline(body, n, args)
                except Undecided: pass
        ts = tuple(self.term(a) for a in args)
        if n.get('m') or n.get('om'):
            o = ts[0]
            if o[0] == '&': o = o[1]
            return ('val', ('call', name, o) + ts[1:])
        if fn is None and n.get('ce') is not None: raise Undecided('indirect call')
        return ('val', ('call', q) + ts)

    def inline(self, f, n, args):
        if self.depth <= 0: raise Undecided('depth')
        env = {}
        a = list(args)
        if f.get('cls') and not f.get('smeth') and not f.get('ctor'):
            o = a.pop(0); t = self.term(o)
            env['this'] = ('val', t[1]) if t[0] == '&' else o
        for p, v in zip(f['params'], a): env[p['d']] = v
        self.depth -= 1
        try: return self.run(f, env)
        finally: self.depth += 1

    # ---- statements
    def run(self, f, env):
        r = self.block(f['body'], env, f['u'])
        if r is None or r[0] != 'ret': raise Undecided('no return')
        return r[1]

    def block(self, s, env, u):
        """None falls through; ('ret',v); ('brk',); ('cont',)"""
        if s is None: return None
        k = s['k']
        if k == 'Block':
            for x in s['c']:
                r = self.block(x, env, u)
                if r: return r
            return None
        if k == 'Return':
            return ('ret', self.ev(s['c'][0], env, u) if s.get('c') and s['c'][0] is not None else ('none',))
        if k == 'If':
            if s.get('init'): self.block(s['init'], env, u)
            if s.get('cv'): self.block(s['cv'], env, u)
            c = s['c']
            if self.truth(c[0], env, u): return self.block(c[1], env, u)
            return self.block(c[2], env, u) if len(c) > 2 else None
        if k == 'Decl':
            for v in s['c']: self.decl(v, env, u)
            return None
        if k in ('For', 'While', 'Do'):
            c = s['c']
            if k == 'For':
                if c[0] is not None: self.block(c[0], env, u)
                cond, inc, body = c[1], c[2], c[3]
            elif k == 'While': cond, inc, body = c[0], None, c[1]
            else: cond, inc, body = c[1], None, c[0]
            try: cover = self.coverage(k, cond, inc, body, env, u)
            except Undecided: cover = 'unknown'
            # locals stepped by the loop become a generic position
            for part in (cond, inc, body):
                if part is None: continue
                for n in walk(part):
                    if n['k'] == 'Un' and n['op'] in ('++', '--') or n['k'] == 'Bin' and n['op'] in ('+=', '-='):
                        l = lib.unwrap(n['c'][0])
                        if l['k'] == 'Ref' and l.get('dk') == 'local' and l['d'] in env:
                            env[l['d']] = ('val', ('idx', l['d']))
            if cover is not None and any(x['k'] in ('Return', 'If', 'Cond') for x in walk(body)): self.loops.append((cover, s))
            r = self.block(body, env, u)
            if r and r[0] == 'ret': return r
            return None
        if k == 'Range':
            v = s['var']; env[v['d']] = ('val', ('[]', self.term(self.ev(s['c'][0], env, u)), ('idx', v['d'])))
            r = self.block(s['c'][1], env, u)
            if r and r[0] == 'ret': return r
            return None
        if k in ('Break', 'Continue'): return ('brk',)
        if k == 'Nop': return None
        if k in ('Throw', 'Switch', 'Try', 'Goto', 'Label'): raise Undecided(k)
        self.ev(s, env, u)
        return None
    def coverage(self, k, cond, inc, body, env, u):
        """does the loop visit all positions?  'ok', 'unknown', or a message; None if it has no position variable"""
        c = lib.unwrap(cond)
        if c is None or len(c.get('c', ())) != 2 or c['k'] not in ('Bin', 'Call'): return 'unknown'
        op = c.get('op') or c.get('n', '')[8:]
        if op not in ('<', '>', '!=', '<=', '>='): return 'unknown'
        x, y = lib.unwrap(c['c'][0]), lib.unwrap(c['c'][1])
        def var(n):
            return n is not None and n['k'] == 'Ref' and n.get('dk') == 'local' and n['d'] in env
        def down(n):
            return n is not None and n['k'] == 'Un' and n['op'] == '--' and n.get('post') and var(lib.unwrap(n['c'][0]))
        if x is not None and x['k'] == 'Un' and x['op'] == '--' and not x.get('post') and var(lib.unwrap(x['c'][0])):   # --i>=0
            start = env[lib.unwrap(x['c'][0])['d']]; lim = self.ev(c['c'][1], env, u)
            if lim == ('int', 0) and op in ('>', '!='): return 'the loop stops before reaching position 0'
            if lim == ('int', 0) and op == '>=' or lim == ('int', -1) and op in ('>', '!='): return self.fullsize(start, body, u)
            return 'unknown'
        if down(x) and op in ('>', '!='):      # i-->0
            start = env[lib.unwrap(x['c'][0])['d']]; lim = self.ev(c['c'][1], env, u)
            if lim[0] == 'int' and lim[1] != 0: return 'the loop stops before reaching position 0'
            return self.fullsize(start, body, u)
        if var(y) and not var(x): x, y = y, x; c = dict(c, c=[c['c'][1], c['c'][0]]); op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not var(x): return 'unknown'
        start = env[x['d']]
        stop = env[y['d']] if var(y) else self.ev(c['c'][1], env, u)
        step = None
        for n in walk(inc) if inc is not None else ():
            if n.get('op') in ('++', '--', '+=', '-=') and n.get('c') and lib.unwrap(n['c'][0]) is not None and lib.unwrap(n['c'][0]).get('d') == x['d']:
                step = n['op']
                if step in ('+=', '-='):
                    a = self.ev(n['c'][1], env, u)
                    if a[0] == 'int' and a[1] != 1: return 'the loop steps by %d' % a[1]
                    step = step[0] * 2
        if step is None: return 'unknown'
        if start[0] == 'int':
            if step != '++': return 'unknown'
            if start[1] > 0: return 'the loop starts at position %d' % start[1]
            return self.fullsize(stop, body, u, 1 if op == '<=' else 0)
        if start[0] == 'val' and stop[0] == 'val' and op == '!=':
            a, b = start[1], stop[1]
            if isinstance(a, tuple) and a[0] == 'call' and isinstance(b, tuple):
                ends = {'begin': 'end', 'cbegin': 'cend', 'rbegin': 'rend', 'crbegin': 'crend'}
                if a[1] in ends and b[0] == 'call' and b[1] == ends[a[1]] and a[2] == b[2]: return 'ok'
                if a[1] in ends and contains(b, ('call', ends[a[1]], a[2])): return 'the loop stops before the end'
            if isinstance(b, tuple) and b[0] == 'call' and b[1] in ('end', 'cend', 'rend') and isinstance(a, tuple):
                if any(contains(a, ('call', g, b[2])) for g in ('begin', 'cbegin', 'rbegin')): return 'the loop starts after the beginning'
        return 'unknown'
    def fullsize(self, v, body, u, less=0):
        """v must be the full number of positions minus less"""
        if v[0] == 'int':
            for n in walk(body):
                if n['k'] == 'Sub':
                    m = re.search(r'\[(\d+)\]$', u.types[lib.unwrap(n['c'][0])['t']][1])
                    if m and int(m.group(1)) != v[1] + less: return 'the loop covers %d of %s positions' % (v[1] + less, m.group(1))
            return 'ok'
        t = self.term(v)
        if not isinstance(t, tuple): return 'unknown'
        if t[0] == 'call' and t[1] == 'degree': return 'ok' if less else 'the loop stops before the leading position'
        if t[0] == 'call' and t[1] == 'size': return 'unknown' if less else 'ok'
        if len(t) == 3 and t[0] in ('-', '+') and isinstance(t[2], tuple) and t[2][0] == '#' and isinstance(t[1], tuple) and t[1][0] == 'call' and t[1][1] in ('size', 'degree'):
            off = (t[2][1] if t[0] == '+' else -t[2][1]) + (1 if t[1][1] == 'degree' else 0) + less
            return 'ok' if off == 0 else 'the loop covers %d position(s) too %s' % (abs(off), 'few' if off < 0 else 'many')
        return 'unknown'
    def decl(self, v, env, u):
        if v['k'] != 'Var': return
        if v.get('i') is not None: env[v['d']] = self.ev(v['i'], env, u)
        else: env[v['d']] = ('val', ('uninit', v['d']))

def show(t):
    if t == A: return 'a'
    if t == B: return 'b'
    if not isinstance(t, tuple): return str(t)
    if t[0] == '.': return '%s.%s' % (show(t[1]), t[2])
    if t[0] == '[]': return '%s[%s]' % (show(t[1]), show(t[2]))
    if t[0] == 'idx': return 'i'
    if t[0] == 'call': return '%s(%s)' % (t[1], ','.join(show(x) for x in t[2:]))
    if t[0] == '#': return str(t[1])
    if t[0] == '*' and len(t) == 2: return '*' + show(t[1])
    return '(%s)' % ' '.join(show(x) for x in t)

def simple_return(f):
    b = f.get('body')
    if not b or b['k'] != 'Block': return None
    st = [x for x in b['c'] if x is not None and x['k'] not in ('Nop',)]
    # expression statements left over from disabled assertions have no effect
    st = [x for x in st if not (x['k'] in ('Cast', 'Int'))]
    if len(st) == 1 and st[0]['k'] == 'Return' and st[0].get('c') and st[0]['c'][0] is not None: return st[0]['c'][0]
    return None

def decide(P, run, limit=3000):
    """enumerate all outcomes; run(ev) -> bool.  Returns (leaves, fields, memsizes)"""
    leaves = []; fields = set(); mems = []; decide.loops = []
    stack = [{}]
    while stack:
        asg = stack.pop()
        e = Eval(P); e.asg = asg
        try:
            r = run(e)
            v = e.nonzero(r)[1]
            leaves.append((dict(asg), v)); fields |= e.fields; decide.loops += e.loops
            if hasattr(e, 'memsize'): mems.append(e.memsize)
        except Need as x:
            fields |= e.fields
            for d in x.dom:
                a = dict(asg); a[x.key] = d; stack.append(a)
            if len(stack) + len(leaves) > limit: raise Undecided('too many cases')
    return leaves, fields, mems

class Table:
    """complete decision table of a comparison"""
    def __init__(self, leaves):
        self.leaves = leaves
        keys = []
        for a, _ in leaves:
            for k in a:
                if k not in keys: keys.append(k)
        self.rels = [k for k in keys if k[0] == 'rel']
        self.free = [k for k in keys if k[0] == 'free']
        bs = [k for k in keys if k[0] == 'bool']
        # one-operand predicates come in pairs p(A), p(B)
        self.preds = []
        for k in bs:
            t = k[1]; s = sides(t)
            if len(s) != 1: raise Undecided('predicate about both operands: ' + show(t))
            p = t if s == {'A'} else swap(t)
            if p not in self.preds: self.preds.append(p)
        if len(self.rels) + 2 * len(self.preds) > 9: raise Undecided('too many projections')
    def value(self, asg):
        for a, v in self.leaves:
            if all(asg.get(k) == x for k, x in a.items()): return v
        raise Undecided('incomplete')
    def states(self, objs=2):
        """assignments: relation per projection, truth per predicate and operand"""
        for fr in itertools.product((False, True), repeat=len(self.free)):
            for pv in itertools.product((False, True), repeat=len(self.preds) * 2):
                pa = dict(zip(self.preds, zip(pv[::2], pv[1::2])))
                for rs in itertools.product(REL, repeat=len(self.rels)):
                    rel = dict(zip(self.rels, rs))
                    if not self.feasible(rel, pa): continue
                    yield dict(zip(self.free, fr)), pa, rel
    def feasible(self, rel, pa):
        for p, (x, y) in pa.items():
            c = emptyish(p)
            if c is not None:
                for k, r in rel.items():
                    if sizeterm(k[1], c) and ((x and y and r != 'eq') or (x != y and r == 'eq')): return False
                if x or y:
                    # elements of an empty container do not differ
                    for k, r in rel.items():
                        if r != 'eq' and mentions_elem(k[1], c): return False
        return True
    def mk(self, fr, pa, rel):
        a = dict(fr)
        for p, (x, y) in pa.items(): a[('bool', p)] = x; a[('bool', swap(p))] = y
        a.update(rel)
        return a
    def alleq(self, pa, rel):
        return all(r == 'eq' for r in rel.values()) and all(x == y for x, y in pa.values())

def emptyish(p):
    """container (term over A) whose emptiness p asserts"""
    if p[0] == 'call' and p[1] in EMPTYISH: return p[2]
    if p[0] == 'cmp' and p[1] == '==':
        for x, y in ((p[2], p[3]), (p[3], p[2])):
            if y == ('#', 0) and x[0] == 'call' and x[1] == 'size': return x[2]
    return None
def sizeterm(t, c):
    """injective function of the size of c"""
    if t == ('call', 'size', c): return True
    return isinstance(t, tuple) and len(t) == 3 and t[0] in ('-', '+') and isinstance(t[2], tuple) and t[2][0] == '#' and sizeterm(t[1], c)
def mentions_elem(t, c):
    """t reaches into container c"""
    if not isinstance(t, tuple) or t == c or sizeterm(t, c) or t == ('call', 'empty', c): return False
    return contains(t, c)
def contains(t, c):
    return t == c or isinstance(t, tuple) and any(contains(x, c) for x in t if isinstance(x, tuple))

FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}
COMP = {('lt', 'lt'): ('lt',), ('lt', 'eq'): ('lt',), ('eq', 'lt'): ('lt',), ('eq', 'eq'): ('eq',), ('eq', 'gt'): ('gt',), ('gt', 'eq'): ('gt',),
        ('gt', 'gt'): ('gt',), ('lt', 'gt'): REL, ('gt', 'lt'): REL}

def desc(fr, pa, rel):
    s = ['%s %s' % (show(k[1]), {'lt': 'smaller', 'eq': 'equal', 'gt': 'larger'}[r]) for k, r in rel.items()]
    s += ['%s: %s/%s' % (show(p), *v) for p, v in pa.items()]
    return ', '.join(s)

def check_equality(tab, positive):
    """None, or a message"""
    for fr, pa, rel in tab.states():
        v = tab.value(tab.mk(fr, pa, rel))
        want = tab.alleq(pa, rel) == positive
        if v != want:
            return 'yields %s when %s' % (v, desc(fr, pa, rel))
    return None

def check_order(tab):
    st = list(tab.states())
    val = {}
    for fr, pa, rel in st: val[key3(fr, pa, rel)] = tab.value(tab.mk(fr, pa, rel))
    for fr, pa, rel in st:
        v = val[key3(fr, pa, rel)]
        if tab.alleq(pa, rel) and v: return 'not irreflexive: yields true when all projections are equal'
        pb = {p: (y, x) for p, (x, y) in pa.items()}
        rb = {k: FLIP[r] for k, r in rel.items()}
        w = val.get(key3(fr, pb, rb))
        if w is None: continue
        if v and w: return 'not asymmetric: true both ways when %s' % desc(fr, pa, rel)
        if not v and not w and not tab.alleq(pa, rel): return 'operands that differ compare as equivalent when %s' % desc(fr, pa, rel)
    # transitivity
    if len(st) > 400: return None
    byfr = {}
    for s in st:
        if val[key3(*s)]: byfr.setdefault(tuple(sorted(s[0].items(), key=str)), []).append(s)
    for lst in byfr.values():
        for f1, p1, r1 in lst:
            for f2, p2, r2 in lst:
                if any(p1[p][1] != p2[p][0] for p in p1): continue
                p3 = {p: (p1[p][0], p2[p][1]) for p in p1}
                for rs in itertools.product(*[COMP[(r1[k], r2[k])] for k in tab.rels]):
                    r3 = dict(zip(tab.rels, rs))
                    x = val.get(key3(f1, p3, r3))
                    if x is False: return 'not transitive: %s, then %s, but not %s' % (desc(f1, p1, r1), desc(f2, p2, r2), desc(f1, p3, r3))
    return None
def check_direction(tab, numeric=False, reverse=()):
    """operator<: a difference in a single projection decides in its own direction"""
    for fr, pa, rel in tab.states():
        ch = [k for k, r in rel.items() if r != 'eq']
        if len(ch) != 1 or any(x != y for x, y in pa.values()): continue
        if not numeric and any(x or y for x, y in pa.values()): continue
        v = tab.value(tab.mk(fr, pa, rel))
        r = rel[ch[0]]
        neg = numeric and any(x for x, y in pa.values()) and sizeonly(ch[0][1])
        if any(re.search(p, show(ch[0][1])) for p in reverse): neg = not neg
        if crossed(ch[0][1]): neg = not neg
        if v != ((r == 'lt') != neg): return 'yields %s when only this differs: %s' % (v, desc(fr, pa, rel))
    return None
def crossed(t):
    """cross product (denominator of a) * (numerator of b)"""
    if isinstance(t, tuple) and len(t) == 3 and t[0] == '*':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            if sides(x) == {'A'} and sides(y) == {'B'}: return 'den' in show(x) and 'num' in show(y)
    return False
def sizeonly(t):
    return isinstance(t, tuple) and t[0] == 'call' and t[1] == 'size'
def key3(fr, pa, rel):
    return (tuple(sorted(fr.items(), key=str)), tuple(sorted(pa.items(), key=str)), tuple(sorted(rel.items(), key=str)))
