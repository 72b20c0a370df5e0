"""Path-sensitive abstract interpreter over the extracted AST.

It tracks, symbolically, the interpreter's evaluation stack (as a sequence of
abstract values with axis types), the locals holding values / levels / small
constants, and the row/tuple/union objects under construction.  Functions that
touch the stack (transitively) or yield imprecisely typed values are inlined;
everything else is opaque.  Nothing is executed and no solver is used: branch
conditions are followed both ways unless they are decided by the evaluation
level or by constants, loops are iterated to a fixpoint over abstract states.
"""
import re
from src import children, walk, fn_nodes
from prog import strip

ANY = ('any',)
NONNULL = ('any', 'nn')     # a value of unknown type that is certainly present
def P(n): return ('p', n)
VOIDT = ('tup', ())
CLS = {'int_value': P('int'), 'rat_value': P('rat'), 'string_value': P('string'),
       'bool_value': P('bool'), 'vector_value': P('vec'), 'matrix_value': P('mat'),
       'rational_vector_value': P('ratvec'), 'Lie_type_value': P('LieType'),
       'root_datum_value': P('RootDatum'), 'W_elt_value': P('WeylElt'),
       'inner_class_value': P('InnerClass'), 'real_form_value': P('RealForm'),
       'Cartan_class_value': P('CartanClass'), 'KGB_elt_value': P('KGBElt'),
       'Block_value': P('Block'), 'split_int_value': P('Split'), 'K_type_value': P('KType'),
       'K_type_pol_value': P('KTypePol'), 'module_parameter_value': P('Param'),
       'virtual_module_value': P('ParamPol')}
FUNCS = ('function_base', 'closure_value', 'builtin_value', 'parameter_value', 'special_builtin',
         'recursive_closure', 'projector_value', 'injector_value', 'hunger_builtin')
AGG = ('row_value', 'tuple_value', 'union_value')
VALRE = re.compile(r'atlas::interpreter::(?:\(anonymous namespace\)::)?(\w+)')

class Undecided(Exception): pass

def parse_type(s):
    """axis type string -> type"""
    pos = [0]
    def ws():
        while pos[0] < len(s) and s[pos[0]] == ' ': pos[0] += 1
    def tuple_or_union(stop):
        """sequence of comps separated by , or |, up to one of stop"""
        items = []; sep = None
        ws()
        def item():
            ws()
            if pos[0] >= len(s) or s[pos[0]] in ',|' + stop: return VOIDT
            return prim()
        first = item(); items.append(first); ws()
        while pos[0] < len(s) and s[pos[0]] in ',|':
            sep_here = s[pos[0]]; pos[0] += 1
            if sep is None: sep = sep_here
            elif sep != sep_here:
                # mixed: union of tuples, "|" binds weaker
                if sep == ',' and sep_here == '|':
                    items = [('tup', tuple(items))]; sep = '|'
                elif sep == '|' and sep_here == ',':
                    rest = [items.pop()]
                    rest.append(item()); ws()
                    while pos[0] < len(s) and s[pos[0]] == ',':
                        pos[0] += 1; rest.append(item()); ws()
                    items.append(('tup', tuple(rest)))
                    continue
            items.append(item()); ws()
        if sep is None: return items[0]
        return ('tup' if sep == ',' else 'uni', tuple(items))
    def prim():
        ws()
        c = s[pos[0]]
        if c == '[':
            pos[0] += 1; t = tuple_or_union(']'); ws()
            assert s[pos[0]] == ']'; pos[0] += 1
            return ('row', t)
        if c == '(':
            pos[0] += 1; t = tuple_or_union('-)'); ws()
            if s[pos[0]] == '-':
                pos[0] += 2
                r = tuple_or_union(')'); ws()
                assert s[pos[0]] == ')'; pos[0] += 1
                return ('fun', t, r)
            assert s[pos[0]] == ')'; pos[0] += 1
            return t
        m = re.match(r'\w+', s[pos[0]:])
        assert m, s
        pos[0] += m.end()
        w = m.group(0)
        if re.fullmatch('[A-Z]', w): return ('var', w)
        if w == 'void': return VOIDT
        return P(w)
    t = tuple_or_union('')
    ws()
    assert pos[0] == len(s), s
    return t

def tstr(t):
    k = t[0]
    if k == 'p': return t[1]
    if k == 'row': return '[' + tstr(t[1]) + ']'
    if k == 'tup': return '(' + ','.join(map(tstr, t[1])) + ')'
    if k == 'uni': return '(' + '|'.join(map(tstr, t[1])) + ')'
    if k == 'fun': return 'function'
    if k == 'var': return t[1]
    if k == 'multi': return 'components-of-subexpression'
    if k == 'oneof': return '|'.join(map(tstr, t[1]))
    return '?'

def value_class(T):
    """name of the value class a C++ type string denotes (through shared_ptr, &, *, const), or None"""
    m = re.fullmatch(r'(?:const )?(?:std::(?:shared_ptr|unique_ptr)<(?:const )?)?(?:const )?atlas::interpreter::(?:\(anonymous namespace\)::)?(\w+)(?:, std::default_delete<.*>)?>?(?: const)?(?: ?[&*]+)?(?: ?const)?', T)
    if not m: return None
    n = m.group(1)
    if n in CLS or n in AGG or n in FUNCS or n == 'value_base': return n
    return None

def class_val(c):
    if c in CLS: return ('v', CLS[c])
    if c == 'row_value': return ('v', ('row', ANY))
    if c in FUNCS: return ('v', ('fun',))
    return ('v', ANY)

N = ('n',)
NULL = ('null',)

class St:
    __slots__ = ('stack', 'env', 'heap', 'nid', 'asm', 'fx')
    def __init__(s, stack=(), env=None, heap=None, nid=0, asm=None, fx=()):
        s.stack = stack; s.env = env or {}; s.heap = heap or {}; s.nid = nid; s.asm = asm or {}
        s.fx = fx
    def cp(s):
        return St(s.stack, s.env, s.heap, s.nid, s.asm, s.fx)
    def key(s):
        return (s.stack, frozenset(s.env.items()), frozenset(s.heap.items()), s.fx)
    def setenv(s, k, v):
        s2 = s.cp(); s2.env = dict(s.env)
        if v == N: s2.env.pop(k, None)
        else: s2.env[k] = v
        if s.asm: s2.asm = {a: b for a, b in s.asm.items() if k not in a[1]}
        return s2
    def new(s, obj):
        s2 = s.cp(); s2.heap = dict(s.heap); s2.heap[s.nid] = obj; s2.nid += 1
        return s2, ('obj', s.nid)
    def seth(s, i, obj):
        s2 = s.cp(); s2.heap = dict(s.heap); s2.heap[i] = obj
        return s2
    def sets(s, stack):
        s2 = s.cp(); s2.stack = stack
        return s2

def dedupe_states(sts):
    """merge states that agree except for the contents of rows under construction"""
    if len(sts) < 2: return sts
    out = {}
    for s in sts:
        k = (s.stack, frozenset(s.env.items()), s.fx,
             frozenset((i, ('row', o[2]) if o[0] == 'row' else o) for i, o in s.heap.items()))
        o = out.get(k)
        if o is None: out[k] = s
        else:
            n = o
            if o.asm != s.asm:
                n = o.cp(); n.asm = {a: b for a, b in o.asm.items() if s.asm.get(a) == b}
            if o.heap != s.heap:
                if n is o: n = o.cp()
                n.heap = {i: (('row', x[1] | s.heap[i][1], x[2]) if x[0] == 'row' else x) for i, x in o.heap.items()}
            if s.nid > n.nid:
                if n is o: n = o.cp()
                n.nid = s.nid
            out[k] = n
    return list(out.values())

def dedupe(outs):
    """outs: list of (kind, st, val)"""
    by = {}
    for k, s, v in outs:
        by.setdefault((k, v), []).append(s)
    res = []
    for (k, v), ss in by.items():
        for s in dedupe_states(ss): res.append((k, s, v))
    return res

MAXST = 3000

class Interp:
    def __init__(self, prog, hooks=None):
        self.p = prog
        self.viol = []          # (rule, unit, node, message)
        self.collect = []       # active try collectors
        self.hooks = hooks
        self.depth = 0
        self.steps = 0
        self.inlined = set()
        self.limit = 400000
        self.debug = False

    # ---------- helpers
    def V(self, rule, u, n, msg):
        self.viol.append((rule, u, n, msg))

    def rd(self, st, v):
        while v[0] == 'loc':
            l = v[1]
            if l[0] == 'var': v = st.env.get(l[1:], N)
            elif l[0] == 'stk':
                v = st.stack[l[1]] if 0 <= l[1] < len(st.stack) else ('v', ANY)
            elif l[0] == 'elt':
                o = st.heap.get(l[1])
                if o is None: return ('v', ANY)
                if o[0] == 'tup' and o[1] is not None and l[2] is not None and 0 <= l[2] < len(o[1]):
                    v = o[1][l[2]]
                    if v is None: v = NULL
                elif o[0] == 'row' and o[2] is not None: v = ('v', o[2])
                elif o[0] == 'row' and len(o[1]) == 1: v = next(iter(o[1]))
                else: v = ('v', ANY)
            elif l[0] == 'const': return l[1]
            else: return N
        return v

    def wr(self, st, lv, v, u=None, n=None):
        """store v at location value lv"""
        # resolve aliases
        while lv[0] == 'loc' and lv[1][0] == 'var':
            cur = st.env.get(lv[1][1:], N)
            if cur[0] == 'loc': lv = cur
            else: break
        if lv[0] != 'loc': return st
        l = lv[1]
        if l[0] == 'var': return st.setenv(l[1:], v)
        if l[0] == 'stk':
            i = l[1]
            if 0 <= i < len(st.stack):
                return st.sets(st.stack[:i] + (v,) + st.stack[i+1:])
            return st
        if l[0] == 'elt':
            o = st.heap.get(l[1])
            if o is None: return st
            if o[0] == 'row': return st.seth(l[1], ('row', o[1] | {v}, o[2]))
            if o[0] == 'tup':
                if o[1] is None or l[2] is None or not 0 <= l[2] < len(o[1]):
                    if l[2] is not None and o[1] is not None and u is not None:
                        self.V('tuple-index', u, n, 'component %d stored in a tuple of %d components' % (l[2], len(o[1])))
                    return st.seth(l[1], ('tup', None))
                c = o[1]
                return st.seth(l[1], ('tup', c[:l[2]] + (v,) + c[l[2]+1:]))
        return st

    def by_type(self, T):
        c = value_class(T)
        if c: return class_val(c)
        return N

    def vtype(self, st, v, d=0):
        """type of an abstract value, for messages and comparisons"""
        if v[0] == 'v': return v[1]
        if v[0] == 'obj':
            o = st.heap.get(v[1])
            if o is None or d > 6: return ANY
            if o[0] == 'row':
                ts = {self.vtype(st, x, d+1) for x in o[1]}
                if not ts and o[2] is not None: return ('row', o[2])
                if len(ts) == 1: return ('row', ts.pop())
                return ('row', ANY)
            if o[0] == 'tup':
                if o[1] is None: return ANY
                return ('tup', tuple(ANY if x is None else self.vtype(st, x, d+1) for x in o[1]))
            if o[0] == 'uni' and o[1][0] == 'i':
                return ('inj', o[1][1], self.vtype(st, o[2], d+1))
            if o[0] == 'uni': return ('anyuni',)
        return ANY

    def conform(self, st, v, t, d=0):
        """None when v may be of type t, else an explanation"""
        if d > 8 or t[0] in ('any', 'var'): return None
        if v is None: return 'component never set'
        if v[0] == 'v': return None if compat(v[1], t) else 'a value of type %s where %s is required' % (tstr(v[1]), tstr(t))
        if v[0] == 'obj':
            o = st.heap.get(v[1])
            if o is None: return None
            if o[0] == 'row':
                if t[0] != 'row': return 'a row where %s is required' % tstr(t)
                for x in o[1]:
                    e = self.conform(st, x, t[1], d+1)
                    if e: return 'row element: ' + e
                if not o[1] and o[2] is not None and not compat(o[2], t[1]):
                    return 'a value of type %s where %s is required' % (tstr(('row', o[2])), tstr(t))
                return None
            if o[0] == 'tup':
                if t[0] != 'tup': return 'a tuple where %s is required' % tstr(t)
                if o[1] is None: return None
                if len(o[1]) != len(t[1]): return 'a tuple of %d components where %s is required' % (len(o[1]), tstr(t))
                for i, (x, y) in enumerate(zip(o[1], t[1])):
                    e = self.conform(st, x, y, d+1)
                    if e: return 'component %d: %s' % (i, e)
                return None
            if o[0] == 'uni':
                if t[0] != 'uni': return 'a union value where %s is required' % tstr(t)
                if o[1][0] == 'i':
                    if not 0 <= o[1][1] < len(t[1]): return 'union tag %d out of range for %s' % (o[1][1], tstr(t))
                    return self.wrap(self.conform(st, o[2], t[1][o[1][1]], d+1), 'variant %d: ' % o[1][1])
                return None
        return None
    def wrap(self, e, pre): return pre + e if e else None

    # ---------- expressions
    def ev(self, u, n, st, fr):
        """-> list of (st, val)"""
        self.steps += 1
        if self.steps > self.limit: raise Undecided('step limit')
        h = getattr(self, 'x_' + n['k'], None)
        if h: return h(u, n, st, fr)
        return self.generic(u, n, st, fr)

    def seq(self, u, nodes, st, fr):
        """evaluate nodes in order -> list of (st, [vals])"""
        cur = [(st, [])]
        for c in nodes:
            nxt = []
            for s, vs in cur:
                if c is None: nxt.append((s, vs + [N])); continue
                for s2, v in self.ev(u, c, s, fr): nxt.append((s2, vs + [v]))
            cur = nxt
            if len(cur) > MAXST: raise Undecided('too many states')
        return cur

    def generic(self, u, n, st, fr):
        r = self.seq(u, list(children(n)), st, fr)
        v = self.by_type(u.T(n)) if 't' in n else N
        return [(s, v) for s, _ in r]

    def x_Int(self, u, n, st, fr):
        try: return [(st, ('i', int(n['v'])))]
        except (KeyError, ValueError): return [(st, N)]
    x_Bool = x_Int
    x_Chr = x_Int
    def x_Null(self, u, n, st, fr): return [(st, NULL)]
    def x_Str(self, u, n, st, fr): return [(st, N)]
    def x_SizeOf(self, u, n, st, fr): return [(st, N)]
    def x_This(self, u, n, st, fr): return [(st, st.env.get((fr[0], 'this'), N))]

    def lookup(self, st, fr, d):
        f = fr
        while f is not None:
            if d in f[2]: return (f[0], d)
            f = f[1]
        return (fr[0], d)

    def x_Ref(self, u, n, st, fr):
        dk = n.get('dk')
        if dk in ('local', 'parm', 'slocal', 'binding'):
            k = self.lookup(st, fr, n['d'])
            v = st.env.get(k)
            if v is None:
                # untracked: value by type
                b = self.by_type(u.T(n))
                if b != N: return [(st, ('loc', ('var',) + k) if False else b)]
                return [(st, ('loc', ('var',) + k))]
            if v[0] == 'loc': return [(st, v)]
            return [(st, ('loc', ('var',) + k))]
        if dk == 'global':
            if n.get('q', '').endswith('::execution_stack'): return [(st, ('cont', 'stk'))]
            return [(st, self.by_type(u.T(n)))]
        if dk == 'enum':
            return [(st, ('i', int(n['v'])) if 'v' in n else N)]
        if dk == 'fn':
            return [(st, ('fn', n.get('d')))]
        return [(st, self.by_type(u.T(n)))]

    def x_Mem(self, u, n, st, fr):
        if not n.get('c'): return [(st, self.by_type(u.T(n)))]
        out = []
        for s, v in self.ev(u, n['c'][0], st, fr):
            b = self.rd(s, v)
            nm = n['n']
            if nm == 'val' and b[0] == 'obj' and s.heap.get(b[1], ('',))[0] in ('row', 'tup'):
                out.append((s, ('cont', b[1])))
            elif nm == 'val' and b[0] == 'v' and b[1][0] in ('row', 'tup', 'any') and 'std::vector' in u.T(n):
                out.append((s, ('vcont', b[1])))
            elif b[0] == 'pair' and nm in ('first', 'second'):
                out.append((s, b[1 if nm == 'first' else 2]))
            else:
                out.append((s, self.by_type(u.T(n))))
        return out

    def x_ICast(self, u, n, st, fr):
        return self.ev(u, n['c'][0], st, fr)
    def x_DefArg(self, u, n, st, fr):
        c = list(children(n))
        return self.ev(u, c[0], st, fr) if c else [(st, self.by_type(u.T(n)))]
    x_Paren = x_ICast

    def cast_check(self, u, n, st, v, T):
        c = value_class(T)
        v = self.rd(st, v)
        if not c: return v if v[0] in ('obj', 'v', 'null', 'i', 'it') else N
        if c == 'value_base': return v if v[0] in ('obj', 'v', 'null') else ('v', ANY)
        return self.cast_to(u, n, st, v, c)

    def cast_to(self, u, n, st, v, c):
        if v[0] == 'obj':
            o = st.heap.get(v[1], ('?',))[0]
            ok = (o == 'row' and c == 'row_value') or (o == 'tup' and c in ('tuple_value', 'row_value')) or (o == 'uni' and c == 'union_value') or o == '?'
            if not ok:
                self.V('type', u, n, 'value taken as %s is a %s' % (c, tstr(self.vtype(st, v))))
            return v
        if v[0] == 'v':
            t = v[1]
            if t[0] in ('any', 'var', 'multi'): return class_val(c)
            if c == 'row_value' and t[0] in ('row', 'tup'): return v
            if c == 'tuple_value' and t[0] == 'tup': return v
            if c == 'union_value' and t[0] == 'uni': return v
            if c in FUNCS and t[0] == 'fun': return v
            if t[0] == 'oneof':
                if any(CLS.get(c) == x for x in t[1]): return class_val(c)
            if c in CLS and CLS[c] == t: return v
            self.V('type', u, n, 'value taken as %s (axis type %s) has type %s' % (c, tstr(CLS.get(c, ANY)), tstr(t)))
            return class_val(c)
        return class_val(c)

    def x_Cast(self, u, n, st, fr):
        out = []
        for s, v in self.ev(u, n['c'][0], st, fr):
            w = self.cast_check(u, n, s, v, u.T(n))
            if v[0] == 'loc' and v[1][0] == 'stk' and w[0] == 'v' and w[1][0] in ('p', 'row', 'fun'):
                if self.vtype(s, self.rd(s, v))[0] == 'any': s = self.wr(s, v, w)   # its class is now known
            if n.get('st') == 'const': s, w = self.own(s, w)
            out.append((s, w))
        return out

    def x_Un(self, u, n, st, fr):
        op = n['op']
        out = []
        for s, v in self.ev(u, n['c'][0], st, fr):
            r = self.rd(s, v)
            if op == '!':
                b = self.truth(s, r)
                out.append((s, N if b is None else ('i', int(not b))))
            elif op in ('++', '--'):
                d = 1 if op == '++' else -1
                nv = N
                if r[0] == 'i': nv = ('i', r[1] + d)
                elif r[0] == 'it' and r[2] is not None: nv = ('it', r[1], r[2] + d)
                elif r[0] == 'it': nv = r
                s2 = self.wr(s, v, nv) if v[0] == 'loc' else s
                out.append((s2, r if n.get('post') else nv))
            elif op == '&':
                out.append((s, v))
            elif op == '*':
                out.append((s, self.deref(s, r, v)))
            elif op == '-' and r[0] == 'i': out.append((s, ('i', -r[1])))
            else: out.append((s, N))
        return out

    def deref(self, st, r, v):
        if r[0] == 'it':
            if r[1] == 'stk':
                return ('loc', ('stk', r[2])) if r[2] is not None else ('v', ANY)
            return ('loc', ('elt', r[1], r[2]))
        if r[0] == 'vit':
            t = r[1]
            return ('v', t)
        if r[0] in ('obj', 'v', 'loc', 'lam', 'fn', 'cont'): return r
        return N

    def x_Bin(self, u, n, st, fr):
        op = n['op']; c = n['c']
        if op in ('&&', '||'):
            out = []
            for s, v in self.ev(u, c[0], st, fr):
                for s1, b in self.branch(u, c[0], s, v, fr):
                    if b is None: pass
                    if (op == '&&') != b:
                        out.append((s1, ('i', int(b))))
                    else:
                        for s2, v2 in self.ev(u, c[1], s1, fr):
                            for s3, b3 in self.branch(u, c[1], s2, v2, fr):
                                out.append((s3, ('i', int(b3))))
            return out
        if op == ',':
            return [(s, vs[1]) for s, vs in self.seq(u, c, st, fr)]
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            out = []
            # right operand sequenced first for builtin assignment (C++17); order irrelevant here
            for s, vs in self.seq(u, c, st, fr):
                r = self.rd(s, vs[1])
                if op != '=':
                    l = self.rd(s, vs[0])
                    if op in ('+=', '-=') and l[0] == 'i' and r[0] == 'i':
                        r = ('i', l[1] + r[1] if op == '+=' else l[1] - r[1])
                    elif l[0] == 'it' and r[0] == 'i' and l[2] is not None and op in ('+=', '-='):
                        r = ('it', l[1], l[2] + (r[1] if op == '+=' else -r[1]))
                    else: r = N
                s = self.wr(s, vs[0], r, u, n)
                out.append((s, vs[0]))
            return out
        out = []
        for s, vs in self.seq(u, c, st, fr):
            a = self.rd(s, vs[0]); b = self.rd(s, vs[1])
            out.append((s, self.binop(op, a, b)))
        return out

    def binop(self, op, a, b):
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                if op == '+': return ('i', x + y)
                if op == '-': return ('i', x - y)
                if op == '*': return ('i', x * y)
                if op == '==': return ('i', int(x == y))
                if op == '!=': return ('i', int(x != y))
                if op == '<': return ('i', int(x < y))
                if op == '<=': return ('i', int(x <= y))
                if op == '>': return ('i', int(x > y))
                if op == '>=': return ('i', int(x >= y))
            except Exception: pass
        if a[0] == 'it' and b[0] == 'i' and op in '+-':
            if a[2] is None: return a
            return ('it', a[1], a[2] + (b[1] if op == '+' else -b[1]))
        if a[0] == 'loc' and b[0] == 'i' and op in '+-' and a[1][0] == 'stk':
            return ('loc', ('stk', a[1][1] + (b[1] if op == '+' else -b[1])))
        if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] and a[2] is not None and b[2] is not None:
            if op == '==': return ('i', int(a[2] == b[2]))
            if op == '!=': return ('i', int(a[2] != b[2]))
            if op == '<': return ('i', int(a[2] < b[2]))
            if op == '-': return ('i', a[2] - b[2])
        if op in ('==', '!='):
            if a == NULL and b == NULL: return ('i', int(op == '=='))
            nn = ('v', NONNULL)
            if (a == NULL and (b[0] == 'obj' or b == nn)) or (b == NULL and (a[0] == 'obj' or a == nn)): return ('i', int(op == '!='))
        return N

    def truth(self, st, v):
        v = self.rd(st, v)
        if v[0] == 'i': return v[1] != 0
        return None

    # conditions: record assumptions for pure conditions so that repeated tests agree
    def condkey(self, u, n, fr):
        """(key, negated) or None"""
        neg = False
        while True:
            k = n['k']
            if k == 'Un' and n['op'] == '!': neg = not neg; n = n['c'][0]
            elif k == 'ICast' or k == 'Paren': n = n['c'][0]
            else: break
        vs = set()
        def rep(n):
            k = n['k']
            if k == 'Ref':
                if n.get('dk') in ('local', 'parm', 'binding', 'slocal'):
                    key = self.lookup(None, fr, n['d']); vs.add(key)
                    return 'v%d.%d' % key
                return n.get('q', '?')
            if k in ('Int', 'Bool', 'Chr'): return str(n.get('v'))
            if k == 'Null': return 'null'
            if k == 'This': vs.add((fr[0], 'this')); return 'this%d' % fr[0]
            if k == 'ICast' or k == 'Paren': return rep(n['c'][0])
            if k == 'Mem':
                return '%s.%s' % (rep(n['c'][0]) if n.get('c') else '', n['n'])
            if k == 'Un' and n['op'] not in ('++', '--'): return n['op'] + rep(n['c'][0])
            if k == 'Bin' and not (n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')):
                op = n['op']
                return '(%s%s%s)' % (rep(n['c'][0]), op, rep(n['c'][1]))
            if k == 'Call' and n.get('cm') and n.get('fn') not in self.p.touch:
                return '%s(%s)' % (n['fn'], ','.join(rep(c) for c in n.get('c', ())))
            if k == 'Call' and n.get('op') in ('==', '!=', '<', '>', '<=', '>=') and n.get('fn') not in self.p.touch:
                return '%s(%s)' % (n['fn'], ','.join(rep(c) for c in n.get('c', ())))
            raise ValueError
        try: s = rep(n)
        except ValueError: return None
        # normalise != / ==
        if n['k'] == 'Bin' and n['op'] == '!=':
            s = '(%s==%s)' % (rep(n['c'][0]), rep(n['c'][1])); neg = not neg
        elif n['k'] == 'Bin' and n['op'] == '>=':
            s = '(%s<%s)' % (rep(n['c'][0]), rep(n['c'][1])); neg = not neg
        elif n['k'] == 'Bin' and n['op'] == '<=':
            s = '(%s>%s)' % (rep(n['c'][0]), rep(n['c'][1])); neg = not neg
        if not vs: return None
        return (s, frozenset(vs)), neg

    def branch(self, u, n, st, v, fr):
        """split on truth of condition value: list of (st, bool)"""
        b = self.truth(st, v)
        if b is not None: return [(st, b)]
        ck = self.condkey(u, n, fr) if n is not None else None
        if ck is None: return [(st, True), (st, False)]
        key, neg = ck
        if key in st.asm:
            return [(st, st.asm[key] != neg)]
        out = []
        for b in (True, False):
            s = st.cp(); s.asm = dict(st.asm); s.asm[key] = (b != neg)
            out.append((s, b))
        return out

    def x_Cond(self, u, n, st, fr):
        out = []
        c = n['c']
        for s, v in self.ev(u, c[0], st, fr):
            for s1, b in self.branch(u, c[0], s, v, fr):
                out += self.ev(u, c[1] if b else c[2], s1, fr)
        return out

    def x_Throw(self, u, n, st, fr):
        for s, vs in self.seq(u, [c for c in children(n)], st, fr):
            self.throw(s, n.get('tt') and u.types[n['tt']][1] if isinstance(n.get('tt'), int) else n.get('tt'))
        return []

    def throw_from(self, st, f, n=None):
        fs = self.p.targets(n) if n is not None else (f,)
        ts = set()
        for x in fs: ts |= self.p.may_throw_types(x)
        for t in ts: self.throw(st, t)

    def throw(self, st, T):
        if self.collect: self.collect[-1].append((st, T))

    def x_Lambda(self, u, n, st, fr):
        return [(st, ('lam', id(n), fr[0]))] if self.reg_lam(u, n, fr) else []
    def reg_lam(self, u, n, fr):
        if not hasattr(self, 'lams'): self.lams = {}
        self.lams[id(n)] = (u, n, fr)
        return True

    def x_New(self, u, n, st, fr):
        c = [x for x in children(n)]
        out = []
        for s, vs in self.seq(u, c, st, fr):
            cls = value_class(u.T(n))
            if vs and vs[-1][0] in ('obj', 'v'): out.append((s, vs[-1]))
            elif cls: out.append(self.construct(u, n, s, cls, vs))
            else: out.append((s, N))
        return out

    def construct(self, u, n, st, cls, args, fr=None):
        """construct an object of value class cls from abstract args"""
        if cls == 'row_value':
            if len(args) == 1 and self.rd(st, args[0])[0] == 'obj':  # copy
                o = st.heap.get(self.rd(st, args[0])[1])
                return st.new(o if o else ('row', frozenset([('v', ANY)]), None))
            if len(args) == 1 and args[0][0] == 'cont' and args[0][1] != 'stk':
                return st.new(st.heap.get(args[0][1], ('row', frozenset([('v', ANY)]), None)))
            if len(args) == 1 and self.rd(st, args[0])[0] in ('i', 'n'):
                return st.new(('row', frozenset(), None))
            if len(args) == 1 and self.rd(st, args[0])[0] == 'v': return self.own(st, self.rd(st, args[0]))
            if len(args) == 2:
                a, b = self.rd(st, args[0]), self.rd(st, args[1])
                if a[0] == 'vit': return st.new(('row', frozenset([('v', a[1])]), None))
                if a[0] == 'it' and a[1] != 'stk' and st.heap.get(a[1], ('',))[0] == 'row':
                    return st.new(st.heap[a[1]])
            return st.new(('row', frozenset([('v', ANY)]), None))
        if cls == 'tuple_value':
            if len(args) == 1:
                a = self.rd(st, args[0])
                if a[0] == 'i': return st.new(('tup', (None,) * a[1]))
                if a[0] == 'obj': return st.new(st.heap.get(a[1], ('tup', None)))
                if a[0] == 'v': return self.own(st, a)
            if len(args) == 2:
                a, b = self.rd(st, args[0]), self.rd(st, args[1])
                if a[0] == 'it' and b[0] == 'it' and a[1] == b[1] == 'stk' and a[2] is not None and b[2] is not None:
                    return st.new(('tup', st.stack[a[2]:b[2]]))
            return st.new(('tup', None))
        if cls == 'union_value':
            if len(args) >= 2:
                return st.new(('uni', self.rd(st, args[0]), self.rd(st, args[1])))
            return st, ('v', ANY)
        return st, class_val(cls)

    def own(self, st, v):
        """a value that may be modified in place: give rows and tuples an identity"""
        if v[0] == 'v' and v[1][0] == 'row': return st.new(('row', frozenset(), v[1][1]))
        if v[0] == 'v' and v[1][0] == 'tup': return st.new(('tup', tuple(('v', t) for t in v[1][1])))
        return st, v

    def x_Con(self, u, n, st, fr):
        T = u.T(n)
        args = n.get('c', [])
        q = strip(n.get('q', ''))
        out = []
        if q.startswith('std::shared_ptr') or q.startswith('std::unique_ptr'):
            for s, vs in self.seq(u, args, st, fr):
                vs = [v for v, a in zip(vs, args) if a is None or a['k'] not in ('DefArg',)]
                if not vs: out.append((s, NULL)); continue
                v = vs[0]
                if n.get('cp') or n.get('mv') or True:
                    r = self.rd(s, v)
                    if r[0] in ('obj', 'v', 'null'):
                        out.append((s, r))
                    else: out.append((s, self.by_type(T)))
            return out
        if '__normal_iterator' in q:
            for s, vs in self.seq(u, args, st, fr):
                out.append((s, self.rd(s, vs[0]) if vs else N))
            return out
        if T.startswith(('std::vector<std::shared_ptr<const atlas::interpreter::value_base>', 'std::vector<std::shared_ptr<const value_base>')):
            for s, vs in self.seq(u, args, st, fr):
                vs = [v for v, a in zip(vs, args) if a is None or a['k'] not in ('DefArg',)]
                if (n.get('cp') or n.get('mv')) and vs:
                    v = vs[0]
                    if v[0] == 'loc': v = self.rd(s, v)
                    if v[0] == 'cont' and v[1] != 'stk' and n.get('mv'): out.append((s, v)); continue
                    if v[0] == 'cont' and v[1] != 'stk':
                        s2, o = s.new(s.heap.get(v[1])); out.append((s2, ('cont', o[1]))); continue
                    if v[0] == 'vcont': out.append((s, v)); continue
                s2, o = s.new(('row', frozenset() if len(vs) <= 1 else frozenset([('v', ANY)]), None))
                out.append((s2, ('cont', o[1])))
            return out
        cls = value_class(T)
        if cls and '::shared_ptr' not in T:
            for s, vs in self.seq(u, args, st, fr):
                if (n.get('cp') or n.get('mv')) and vs and self.rd(s, vs[0])[0] in ('v', 'obj'):
                    out.append(self.construct(u, n, s, cls, vs)); continue
                out.append(self.construct(u, n, s, cls, vs))
            return out
        if q.startswith('std::pair') and len(args) == 2:
            return [(s, ('pair', vs[0], vs[1])) for s, vs in self.seq(u, args, st, fr)]
        # frame-like or other objects: constructor may itself touch the stack
        f = n.get('fn')
        if f in self.p.touch and f in self.p.fns:
            for s, vs in self.seq(u, args, st, fr):
                out += self.inline(u, n, s, fr, self.p.fns[f], vs, N)
            return out
        if len(args) == 1 and (n.get('cp') or n.get('mv')):
            return [(s, vs[0]) for s, vs in self.seq(u, args, st, fr)]
        res = []
        for s, vs in self.seq(u, args, st, fr):
            if self.collect: self.throw_from(s, f)
            s = self.havoc(u, s, vs)
            res.append((s, self.by_type(T)))
        return res

    def havoc(self, u, st, vs):
        for v in vs:
            w = v
            if w[0] == 'loc' and w[1][0] == 'var':
                r = self.rd(st, w)
                if r[0] in ('cont', 'it'): w = r
            if w[0] in ('cont', 'it') and w[1] != 'stk':
                o = st.heap.get(w[1])
                if o and o[0] == 'row': st = st.seth(w[1], ('row', o[1] | {('v', ANY)}, o[2]))
                elif o and o[0] == 'tup': st = st.seth(w[1], ('tup', None))
            elif w[0] in ('cont', 'it') and w[1] == 'stk':
                raise Undecided('evaluation stack passed to an opaque function')
        return st

    # ---------- calls
    def x_Call(self, u, n, st, fr):
        q = strip(n.get('q', ''))
        args = n.get('c', [])
        if self.hooks:
            r = self.hooks(self, u, n, st, fr, q)
            if r is not None: return r
        f = n.get('fn')
        nm = n.get('n', '')
        op = n.get('op')
        out = []
        if q == 'atlas::interpreter::push_expanded' and len(args) == 2:
            # a value of unknown type expanded: keep one marker for its components
            for s, vs in self.seq(u, args, st, fr):
                lv, v = self.rd(s, vs[0]), self.rd(s, vs[1])
                if lv == ('i', 2) and v[0] == 'v' and v[1][0] in ('any', 'var', 'oneof'):
                    out.append((s.sets(s.stack + (('v', ('multi',)),)), N))
                else:
                    out += self.inline(u, n, s, fr, self.p.fns[f], vs, N)
            return out
        # callee expression (indirect)
        if n.get('ce') is not None:
            for s, cv in self.ev(u, n['ce'], st, fr):
                for s2, vs in self.seq(u, args, s, fr):
                    c = self.rd(s2, cv)
                    if c[0] == 'fn' and c[1] in self.p.fns and c[1] in self.p.touch:
                        out += self.inline(u, n, s2, fr, self.p.fns[c[1]], vs, N)
                    elif c[0] == 'lam':
                        out += self.call_lam(u, n, s2, fr, c, vs)
                    else:
                        if self.collect: self.throw(s2, None)
                        out.append((s2, self.by_type(u.T(n))))
            return out
        def seq(): return self.seq(u, args, st, fr)
        if q in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
            return [(s, vs[0]) for s, vs in seq()]
        if q == 'std::make_shared' or q == 'std::make_unique':
            m = n.get('ta', '')
            m = re.match(r'<(?:const )?(?:class )?atlas::interpreter::(?:\(anonymous namespace\)::)?(\w+)', m)
            cls = m.group(1) if m else None
            for s, vs in seq():
                if self.collect: self.throw_from(s, f)
                if cls in CLS or cls in AGG or cls in FUNCS: out.append(self.construct(u, n, s, cls, vs))
                else: out.append((self.havoc(u, s, vs), self.by_type(u.T(n))))
            return out
        if q == 'std::static_pointer_cast':
            return [(s, self.cast_check(u, n, s, vs[0], u.T(n))) for s, vs in seq()]
        if q == 'std::const_pointer_cast':
            return [self.own(s, self.cast_check(u, n, s, vs[0], u.T(n))) for s, vs in seq()]
        if q == 'std::dynamic_pointer_cast':
            for s, vs in seq():
                c = value_class(u.T(n)); v = self.rd(s, vs[0])
                t = self.vtype(s, v)
                want = {'tuple_value': 'tup', 'row_value': 'row', 'union_value': 'uni'}.get(c)
                if v[0] == 'obj' or (v[0] == 'v' and t[0] not in ('any', 'var', 'oneof', 'multi')):
                    if want: ok = t[0] == want or (c == 'row_value' and t[0] == 'tup')
                    elif c in CLS: ok = CLS[c] == t
                    else: ok = None
                    if ok is True: out.append((s, v)); continue
                    if ok is False: out.append((s, NULL)); continue
                out.append((s, ('v', ANY) if c in ('tuple_value', 'union_value', None) else class_val(c)))
                out.append((s, NULL))
            return out
        if nm in ('operator->', 'operator*') and ('shared_ptr' in q or 'unique_ptr' in q) and len(args) == 1:
            return [(s, self.rd(s, vs[0]) if self.rd(s, vs[0])[0] in ('obj', 'v', 'null') else self.by_type(u.T(n))) for s, vs in seq()]
        if nm in ('get', 'lock') and ('__shared_ptr' in q or 'unique_ptr' in q or 'weak_ptr' in q):
            # the address of a value still on the stack keeps its location
            return [(s, vs[0] if vs[0][0] == 'loc' and vs[0][1][0] == 'stk' else self.rd(s, vs[0]) if self.rd(s, vs[0])[0] in ('obj', 'v', 'null') else self.by_type(u.T(n))) for s, vs in seq()]
        if nm == 'operator=' and len(args) == 2 and ('shared_ptr' in q or 'unique_ptr' in q):
            # assignment: right operand first
            for s, rv in self.ev(u, args[1], st, fr):
                for s2, lv in self.ev(u, args[0], s, fr):
                    s3 = self.wr(s2, self.lval(s2, lv), self.rd(s2, rv), u, n)
                    out.append((s3, lv))
            return out
        if nm in ('operator==', 'operator!=') and len(args) == 2:
            for s, vs in seq():
                out.append((s, self.binop(nm[8:], self.rd(s, vs[0]), self.rd(s, vs[1]))))
            return out
        if nm == 'swap' and len(args) == 2 and q.startswith('std::'):
            for s, vs in seq():
                a, b = self.rd(s, vs[0]), self.rd(s, vs[1])
                s = self.wr(s, vs[0], b); s = self.wr(s, vs[1], a)
                out.append((s, N))
            return out
        if '__normal_iterator' in q or 'reverse_iterator' in q:
            for s, vs in seq():
                a = self.rd(s, vs[0])
                if nm in ('operator++', 'operator--'):
                    d = 1 if nm.endswith('++') else -1
                    if 'reverse_iterator' in q: d = -d
                    if a[0] == 'it':
                        nv = ('it', a[1], None if a[2] is None else a[2] + d)
                        s = self.wr(s, vs[0], nv)
                        out.append((s, a if len(args) > 1 else nv)); continue
                    out.append((s, a)); continue
                if nm in ('operator*', 'operator->'):
                    if a[0] == 'it' and 'reverse_iterator' in q and a[2] is not None: a = ('it', a[1], a[2] - 1)
                    v = self.deref(s, a, vs[0])
                    out.append((s, v if v != N else self.by_type(u.T(n)))); continue
                if nm in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<') and len(vs) == 2:
                    out.append((s, self.binop(nm[8:], a, self.rd(s, vs[1])))); continue
                if nm in ('operator+=', 'operator-=') and len(vs) == 2:
                    nv = self.binop(nm[8], a, self.rd(s, vs[1]))
                    s = self.wr(s, vs[0], nv); out.append((s, nv)); continue
                if nm == 'operator[]':
                    out.append((s, self.deref(s, self.binop('+', a, self.rd(s, vs[1])), N))); continue
                if nm == 'operator=' and len(vs) == 2:
                    r = self.rd(s, vs[1])
                    s = self.wr(s, vs[0], r); out.append((s, vs[0])); continue
                if a[0] == 'it' and nm in ('operator+', 'operator-'):
                    out.append((s, ('it', a[1], None))); continue
                out.append((s, N if a[0] != 'vit' else a))
            return out
        if q.startswith('std::vector') and args:
            r = self.vec(u, n, st, fr, nm, args)
            if r is not None: return r
        if nm == 'length' and 'row_value' in q and args:
            for s, vs in seq():
                out.append((s, self.size_of(s, self.rd(s, vs[0]))))
            return out
        if q.endswith('union_value::contents'):
            for s, vs in seq():
                b = self.rd(s, vs[0])
                if b[0] == 'v' and b[1][0] == 'uni': out.append((s, ('v', ('oneof', b[1][1]))))
                else: out.append((s, ('v', ANY)))
            return out
        if nm == 'operator()' and op:
            res = []
            handled = False
            for s, vs in seq():
                c = self.rd(s, vs[0])
                if c[0] == 'lam':
                    handled = True
                    res += self.call_lam(u, n, s, fr, c, vs[1:])
                elif f in self.p.fns and self.should_inline(u, n, f):
                    res += self.inline(u, n, s, fr, self.p.fns[f], vs[1:], vs[0])
                else: res.append((self.havoc(u, s, vs), self.by_type(u.T(n))))
            return res
        if f in self.p.fns and self.should_inline(u, n, f):
            for s, vs in seq():
                if n.get('m') or (n.get('om')):
                    out += self.inline(u, n, s, fr, self.p.fns[f], vs[1:], vs[0])
                else:
                    out += self.inline(u, n, s, fr, self.p.fns[f], vs, N)
            return out
        # opaque
        for s, vs in seq():
            if f in self.p.fns and self.p.fns[f]['q'].startswith('atlas::interpreter') and not self.p.fns[f].get('virt') \
               and any(self.rd(s, v)[0] in ('it', 'cont') for v in vs):
                m = n.get('m') or n.get('om')
                out += self.inline(u, n, s, fr, self.p.fns[f], vs[1:] if m else vs, vs[0] if m else N)
                continue
            if self.collect: self.throw_from(s, f, n)
            for v in vs:
                vv = self.rd(s, v)
                if vv[0] == 'lam' and self.lam_touches(vv):
                    raise Undecided('lambda using the evaluation stack passed to an opaque function')
            s = self.havoc(u, s, vs)
            # out-parameters: forget locals passed by reference is implicit (untracked)
            for v, a in zip(vs, args):
                if v[0] == 'loc' and v[1][0] == 'var' and a is not None:
                    cur = s.env.get(v[1][1:])
                    if cur is not None and cur[0] == 'i' and self.nonconst_ref(u, n, f, args.index(a)):
                        s = s.setenv(v[1][1:], N)
            out.append((s, self.by_type(u.T(n))))
        return out

    def nonconst_ref(self, u, n, f, i):
        fn = self.p.fns.get(f)
        if fn is None:
            q = strip(n.get('q', ''))
            return not q.startswith(('std::min', 'std::max'))
        ps = fn['params']
        if n.get('m') or n.get('om'): i -= 1
        if 0 <= i < len(ps):
            T = fn['u'].types[ps[i]['t']][1]
            return T.endswith('&') and not T.startswith('const')
        return False

    def lam_touches(self, v):
        u, n, fr = self.lams[v[1]]
        for x in walk(n):
            if x['k'] in ('Call', 'Con') and x.get('fn') in self.p.touch: return True
            if x['k'] == 'Ref' and x.get('q', '').endswith('::execution_stack'): return True
        return False

    def lval(self, st, v):
        return v

    def size_of(self, st, b):
        if b[0] == 'obj':
            o = st.heap.get(b[1])
            if o and o[0] == 'tup' and o[1] is not None: return ('i', len(o[1]))
        if b[0] == 'v' and b[1][0] == 'tup': return ('i', len(b[1][1]))
        return N

    def vec(self, u, n, st, fr, nm, args):
        out = []
        for s, vs in self.seq(u, args, st, fr):
            b = vs[0]
            if b[0] == 'loc': b = self.rd(s, b)
            if b[0] not in ('cont', 'vcont'):
                if nm in ('push_back', 'emplace_back') and any(v[0] == 'cont' for v in vs[1:]): pass
                if nm in ('back', 'front', 'operator[]', 'at'): out.append((s, self.by_type(u.T(n))))
                else:
                    out.append((s, N))
                continue
            a = [self.rd(s, v) for v in vs[1:]]
            if b[0] == 'vcont':
                t = b[1]
                if nm in ('operator[]', 'at', 'front', 'back'):
                    if t[0] == 'row': out.append((s, ('v', t[1])))
                    elif t[0] == 'tup':
                        i = a[0][1] if nm in ('operator[]', 'at') and a[0][0] == 'i' else None
                        if nm == 'front': i = 0
                        if nm == 'back': i = len(t[1]) - 1
                        if i is not None and 0 <= i < len(t[1]): out.append((s, ('v', t[1][i])))
                        else:
                            if i is not None: self.V('tuple-index', u, n, 'component %d of a tuple of %d components' % (i, len(t[1])))
                            out.append((s, ('v', ANY)))
                    else: out.append((s, ('v', ANY)))
                elif nm in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend'):
                    out.append((s, ('vit', t[1] if t[0] == 'row' else ANY)))
                elif nm == 'size': out.append((s, ('i', len(t[1])) if t[0] == 'tup' else N))
                else: out.append((s, N))
                continue
            c = b[1]
            if c == 'stk':
                L = len(s.stack)
                if nm == 'push_back' or nm == 'emplace_back':
                    v = a[0] if a else NULL
                    if v[0] not in ('v', 'obj', 'null'): v = ('v', ANY)
                    out.append((s.sets(s.stack + (v,)), N))
                elif nm == 'pop_back':
                    if L == 0:
                        self.V('underflow', u, n, 'more values taken from the evaluation stack than the argument supplies')
                        continue
                    out.append((s.sets(s.stack[:-1]), N))
                elif nm in ('back', 'operator[]', 'front', 'at'):
                    i = L - 1 if nm == 'back' else 0 if nm == 'front' else a[0][1] if a[0][0] == 'i' else None
                    if i is None: out.append((s, ('v', ANY))); continue
                    if i >= BASE: i -= BASE
                    if not 0 <= i < L:
                        self.V('underflow', u, n, 'reads below the values supplied on the evaluation stack'); continue
                    out.append((s, ('loc', ('stk', i))))
                elif nm == 'size': out.append((s, ('i', BASE + L)))
                elif nm in ('begin', 'cbegin'): out.append((s, ('it', 'stk', 0 if False else None)))
                elif nm in ('end', 'cend'): out.append((s, ('it', 'stk', L)))
                elif nm == 'empty': out.append((s, N if L == 0 else ('i', 0)))
                elif nm == 'clear': out.append((s.sets(()), N))
                elif nm == 'reserve': out.append((s, N))
                elif nm == 'resize' and a and a[0][0] == 'i' and a[0][1] >= BASE and a[0][1] - BASE <= L:
                    out.append((s.sets(s.stack[:a[0][1] - BASE]), N))
                elif nm == 'erase' and a and a[0][0] == 'it' and a[0][2] is not None and len(a) <= 2:
                    i = a[0][2]; j = i + 1
                    if len(a) == 2:
                        if a[1][0] != 'it' or a[1][2] is None: raise Undecided('erase on stack')
                        j = a[1][2]
                    if i < 0: self.V('underflow', u, n, 'erases below the values supplied on the evaluation stack'); continue
                    out.append((s.sets(s.stack[:i] + s.stack[j:]), N))
                else: raise Undecided('execution_stack.' + nm)
                continue
            o = s.heap.get(c)
            if o is None: out.append((s, ('v', ANY))); continue
            if nm in ('push_back', 'emplace_back', 'assign'):
                v = a[-1] if a else NULL
                if nm != 'push_back' and v[0] not in ('v', 'obj'): v = ('v', ANY)
                if o[0] == 'row': s = s.seth(c, ('row', o[1] | {v}, o[2]))
                elif o[0] == 'tup': s = s.seth(c, ('tup', None if o[1] is None else o[1] + (v,)))
                out.append((s, N))
            elif nm in ('operator[]', 'at'):
                i = a[0][1] if a[0][0] == 'i' else None
                if o[0] == 'row': i = None
                out.append((s, ('loc', ('elt', c, i))))
            elif nm in ('back', 'front'):
                i = None
                if o[0] == 'tup' and o[1] is not None and len(o[1]): i = 0 if nm == 'front' else len(o[1]) - 1
                out.append((s, ('loc', ('elt', c, i))))
            elif nm in ('begin', 'cbegin'): out.append((s, ('it', c, 0 if o[0] == 'tup' else None)))
            elif nm in ('end', 'cend', 'rbegin'):
                out.append((s, ('it', c, len(o[1]) if o[0] == 'tup' and o[1] is not None else None)))
            elif nm == 'size': out.append((s, ('i', len(o[1])) if o[0] == 'tup' and o[1] is not None else N))
            elif nm == 'insert':
                s = self.havoc(u, s, [b]); out.append((s, ('it', c, None)))
            elif nm == 'operator=' and len(vs) == 2:
                r = vs[1]
                if r[0] == 'loc': r = self.rd(s, r)
                if r[0] == 'cont' and r[1] != 'stk' and s.heap.get(r[1], ('',))[0] == o[0]: s = s.seth(c, s.heap[r[1]])
                elif r[0] == 'vcont' and r[1][0] == 'row' and o[0] == 'row': s = s.seth(c, ('row', frozenset([('v', r[1][1])]), None))
                else: s = self.havoc(u, s, [b])
                out.append((s, b))
            elif nm in ('swap',): s = self.havoc(u, s, [b]); out.append((s, N))
            else: out.append((s, N))
        return out

    def should_inline(self, u, n, f):
        if f in self.p.touch: return True
        fn = self.p.fns[f]
        if '/sources/interpreter/' not in ('/' + fn['u'].loc(fn)) and 'axis' not in fn['u'].loc(fn): return False
        if not fn['q'].startswith('atlas::interpreter'): return False
        if fn.get('virt'): return False
        T = fn['u'].types[fn['ret']][1] if isinstance(fn.get('ret'), int) else str(fn.get('ret'))
        c = value_class(T)
        if c in AGG or c == 'value_base': return True
        for p in fn['params']:
            T = fn['u'].types[p['t']][1]
            if c is not None and value_class(T) == 'value_base': return True
            if 'eval_level' in T: return True
            if T.endswith('&') and not T.startswith('const') and ('row_value' in T or 'tuple_value' in T or 'value_base' in T): return True
            if ('row_value' in T or 'tuple_value' in T) and 'const' not in T and ('*' in T or 'shared_ptr' in T): return True
        return False

    def inline(self, u, n, st, fr, f, args, this):
        if self.depth > 14: raise Undecided('inlining too deep at ' + f['q'])
        self.depth += 1
        self.inlined.add(f['id'])
        fu = f['u']
        dep = self.depth
        locs = set(p['d'] for p in f['params'])
        nf = (dep, None, self.locals_of(f))
        env = dict(st.env)
        for k in list(env):
            if k[0] == dep: del env[k]
        for i, p in enumerate(f['params']):
            T = fu.types[p['t']][1]
            v = args[i] if i < len(args) else N
            if T.endswith('&'):
                if v[0] == 'loc' and v[1][0] == 'var':
                    # alias the variable
                    env[(dep, p['d'])] = v if st.env.get(v[1][1:]) is not None or True else N
                elif v != N: env[(dep, p['d'])] = v
            else:
                if not (T.rstrip().endswith('*') and v[0] == 'loc' and v[1][0] == 'stk'): v = self.rd(st, v)
                if v != N: env[(dep, p['d'])] = v
            if (dep, p['d']) not in env or env[(dep, p['d'])] == N:
                b = self.by_type(T)
                if b != N: env[(dep, p['d'])] = b
        if this is not None and this != N:
            env[(dep, 'this')] = self.rd(st, this) if this[0] == 'loc' else this
        s = st.cp(); s.env = env
        res = []
        try:
            outs = self.run(f, s, nf)
        finally:
            self.depth -= 1
        rT = fu.types[f['ret']][1] if isinstance(f.get('ret'), int) else str(f.get('ret'))
        for k, s2, v in outs:
            if k in ('next', 'return'):
                v = v if v is not None else N
                if not rT.endswith('&'): v = self.rd(s2, v)
                elif v[0] == 'loc' and v[1][0] == 'var' and v[1][1] == dep: v = self.rd(s2, v)
                s3 = s2.cp()
                s3.env = {a: b for a, b in s2.env.items() if a[0] != dep}
                if s3.asm: s3.asm = {a: b for a, b in s3.asm.items() if not any(x[0] == dep for x in a[1])}
                res.append(((s3), v))
            else: raise Undecided('unstructured exit %s from %s' % (k, f['q']))
        # dedupe
        by = {}
        for s2, v in res: by.setdefault(v, []).append(s2)
        return [(s2, v) for v, ss in by.items() for s2 in dedupe_states(ss)]

    def locals_of(self, f):
        l = f.get('_locals')
        if l is None:
            l = {p['d'] for p in f['params']}
            for n in fn_nodes(f):
                if n['k'] in ('Var',) and 'd' in n: l.add(n['d'])
                if n['k'] == 'Lambda':
                    for p in n.get('params', ()): l.add(p['d'])
            f['_locals'] = l
        return l

    def call_lam(self, u, n, st, fr, v, args):
        lu, ln, lfr = self.lams[v[1]]
        if self.depth > 14: raise Undecided('inlining too deep (lambda)')
        fid = ln.get('op')
        body = None
        c = list(ln.get('c', ()))
        body = ln.get('body') or (c[-1] if c else None)
        if body is None and fid in self.p.fns: body = self.p.fns[fid]['body']
        if body is None: raise Undecided('lambda body not available')
        self.depth += 1
        dep = self.depth
        nf = (dep, lfr, {p['d'] for p in ln.get('params', ())} | {x['d'] for x in walk(body) if x['k'] == 'Var' and 'd' in x})
        env = dict(st.env)
        for p, a in zip(ln.get('params', ()), args):
            T = lu.types[p['t']][1]
            a2 = a if T.endswith('&') else self.rd(st, a)
            if a2 == N: a2 = self.by_type(T)
            if a2 != N: env[(dep, p['d'])] = a2
        s = st.cp(); s.env = env
        try:
            outs = self.ex(lu, body, s, nf)
        finally: self.depth -= 1
        res = []
        for k, s2, v2 in outs:
            v2 = v2 if v2 is not None else N
            if v2[0] == 'loc' and v2[1][0] == 'var' and v2[1][1] == dep: v2 = self.rd(s2, v2)
            s3 = s2.cp(); s3.env = {a: b for a, b in s2.env.items() if a[0] != dep}
            res.append((s3, v2))
        return res

    def run(self, f, st, fr):
        u = f['u']
        sts = [st]
        for ini in f.get('inits', ()):
            if ini.get('e'):
                nxt = []
                for s in sts:
                    for s2, v in self.ev(u, ini['e'], s, fr): nxt.append(s2)
                sts = dedupe_states(nxt)
        out = []
        for s in sts: out += self.ex(u, f['body'], s, fr)
        out = dedupe(out)
        return self.scope_exit(f, out)

    def scope_exit(self, f, outs): return outs

    # ---------- statements
    def ex(self, u, n, st, fr):
        """-> list of (kind, st, val)"""
        if n is None: return [('next', st, None)]
        h = getattr(self, 's_' + n['k'], None)
        if h: return h(u, n, st, fr)
        return dedupe([('next', s, None) for s, v in self.ev(u, n, st, fr)])

    def s_Block(self, u, n, st, fr):
        c = n.get('c', [])
        return self.stmts(u, c, 0, [st], fr)

    def stmts(self, u, c, i, sts, fr):
        done = []
        pending = {i: list(sts)}
        pos = i
        rounds = 0
        while pos < len(c):
            cur = dedupe_states(pending.pop(pos, []))
            if len(cur) > MAXST: raise Undecided('too many states')
            for s in cur:
                for k, s2, v in self.ex(u, c[pos], s, fr):
                    if k == 'next': pending.setdefault(pos + 1, []).append(s2)
                    elif k == 'goto':
                        t = self.find_label(c, v)
                        if t is None: done.append((k, s2, v))
                        elif t > pos: pending.setdefault(t, []).append(s2)
                        else:
                            rounds += 1
                            if rounds > 3: continue
                            pending.setdefault(t, []).append(s2)
                    else: done.append((k, s2, v))
            nxt = [p for p in pending if pending[p]]
            if not nxt: break
            m = min(nxt)
            if m >= len(c): break
            pos = m
        for s in dedupe_states(pending.get(len(c), [])): done.append(('next', s, None))
        return dedupe(done)

    def find_label(self, c, v):
        for i, x in enumerate(c):
            y = x
            while y is not None and y['k'] == 'Label':
                if y.get('n') == v: return i
                y = (y.get('c') or [None])[-1]
        return None

    def s_Label(self, u, n, st, fr):
        return self.ex(u, (n.get('c') or [None])[-1], st, fr)
    def s_Goto(self, u, n, st, fr): return [('goto', st, n.get('n'))]

    def s_Decl(self, u, n, st, fr):
        sts = [st]
        for v in n.get('c', ()):
            if v['k'] != 'Var': continue
            sts = [s2 for s in sts for s2 in self.decl(u, v, s, fr)]
        return [('next', s, None) for s in dedupe_states(sts)]

    def decl(self, u, v, st, fr):
        key = (fr[0], v['d'])
        T = u.T(v)
        out = []
        if v.get('i') is None:
            val = self.by_type(T)
            if 'std::shared_ptr' in T or 'unique_ptr' in T: val = NULL if val != N else N
            return [st.setenv(key, val)]
        for s, x in self.ev(u, v['i'], st, fr):
            if T.endswith('&') or T.endswith('&&'):
                if x[0] == 'loc' and x[1] == ('var',) + key: x = N
                if x[0] == 'n' or (x[0] == 'loc' and x[1][0] == 'var' and self.rd(s, x) == N and False): x = self.by_type(T)
                s = s.setenv(key, x)
            else:
                x = self.rd(s, x) if not (x[0] == 'loc' and '*' in T) else x
                if x == N: x = self.by_type(T)
                s = s.setenv(key, x)
            out.append(s)
        return out

    def s_If(self, u, n, st, fr):
        sts = [st]
        if n.get('init'):
            sts = [s for s0 in sts for k, s, v in self.ex(u, n['init'], s0, fr)]
        if n.get('cv'):
            sts = [s for s0 in sts for s in self.decl(u, n['cv'], s0, fr)]
        c = n['c']
        out = []
        for s0 in sts:
            for s, v in self.ev(u, c[0], s0, fr):
                for s1, b in self.branch(u, c[0], s, v, fr):
                    t = c[1] if b else (c[2] if len(c) > 2 else None)
                    out += self.ex(u, t, s1, fr)
        return dedupe(out)

    def modified(self, n):
        m = n.get('_mod')
        if m is None:
            m = set()
            for x in walk(n):
                k = x['k']
                t = None
                if k == 'Un' and x['op'] in ('++', '--'): t = x['c'][0]
                elif k == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='): t = x['c'][0]
                elif k == 'Call' and x.get('op') in ('++', '--', '+=', '-=', '='): t = x['c'][0] if x.get('c') else None
                while t is not None and t['k'] in ('ICast', 'Paren'): t = t['c'][0]
                if t is not None and t['k'] == 'Ref' and 'd' in t: m.add(t['d'])
            n['_mod'] = m
        return m

    def declared(self, n):
        m = n.get('_decl')
        if m is None:
            m = n['_decl'] = {x['d'] for x in walk(n) if x['k'] == 'Var' and 'd' in x}
        return m

    def loop_clean(self, st, fr, body):
        """at a loop back edge: drop body locals, summarise objects made in the loop, collect garbage"""
        dl = self.declared(body)
        env = {k: v for k, v in st.env.items() if not (k[0] == fr[0] and k[1] in dl)}
        s = st.cp(); s.env = env; s.asm = {}
        roots = set()
        def add(v):
            if v[0] in ('obj', 'cont', 'it') and isinstance(v[1], int): roots.add(v[1])
            elif v[0] == 'loc' and v[1][0] == 'elt': roots.add(v[1][1])
            elif v[0] == 'pair': add(v[1]); add(v[2])
        for v in env.values(): add(v)
        for v in s.stack: add(v)
        heap = {}
        def summ(x):
            if x is not None and x[0] == 'obj' and x[1] not in roots:
                return ('v', self.vtype(s, x))
            return x
        for i in roots:
            o = s.heap.get(i)
            if o is None: continue
            if o[0] == 'row': o = ('row', frozenset(summ(x) for x in o[1]), o[2])
            elif o[0] == 'tup' and o[1] is not None: o = ('tup', tuple(summ(x) for x in o[1]))
            elif o[0] == 'uni': o = ('uni', o[1], summ(o[2]))
            heap[i] = o
        s.heap = heap
        return s

    def widen(self, st, fr, mods):
        env = st.env; ch = False
        for d in mods:
            k = self.lookup(st, fr, d)
            v = env.get(k)
            if v is not None and (v[0] == 'i' or v[0] == 'it' and v[2] is not None):
                if v[0] == 'it' and v[1] == 'stk': continue
                if not ch: env = dict(env); ch = True
                if v[0] == 'i': del env[k]
                else: env[k] = ('it', v[1], None)
        if not ch: return st
        s = st.cp(); s.env = env
        return s

    def loop(self, u, st, fr, cond, body, inc, whole, post=False, prebody=None):
        """generic loop; returns outcomes"""
        exits = []
        outs = []
        mods = set()
        for x in (cond, body, inc):
            if x is not None: mods |= self.modified(x)
        seen = {}
        work = [(st, 0, post)]
        it = 0
        while work:
            it += 1
            if it > 300: raise Undecided('loop does not stabilise')
            s, cnt, skip = work.pop()
            tests = []
            if cond is None or skip: tests = [(s, True)] if cond is not None or skip else [(s, True)]
            else:
                tst = []
                for s1, v in self.ev(u, cond, s, fr):
                    tst.append((s1, v))
                undec = any(self.truth(s1, v) is None for s1, v in tst)
                if undec and cnt < 1000000:
                    # widen counters once the number of iterations is unknown
                    w = self.widen(s, fr, mods)
                    if w is not s:
                        k = w.key()
                        if k in seen: continue
                        seen[k] = 1
                        tst = list(self.ev(u, cond, w, fr))
                for s1, v in tst:
                    tests += self.branch(u, cond, s1, v, fr)
            for s1, b in tests:
                if not b: exits.append(s1); continue
                s1b = s1.cp()
                # assumptions about loop-modified variables are dropped
                if s1b.asm:
                    mk = {self.lookup(None, fr, d) for d in mods}
                    s1b.asm = {a: bb for a, bb in s1b.asm.items() if not (a[1] & mk)}
                pre = [s1b]
                if prebody: pre = [s for p in pre for s in prebody(p)]
                for p in pre:
                    for k, s2, v in self.ex(u, body, p, fr):
                        if k in ('next', 'continue'):
                            ss = [s2]
                            if inc is not None: ss = [s3 for s3, _ in self.ev(u, inc, s2, fr)]
                            for s3 in ss:
                                if cnt >= 20: s3 = self.widen(s3, fr, mods)
                                s3 = self.loop_clean(s3, fr, body)
                                kk = s3.key()
                                if kk in seen: continue
                                if cnt >= 40:
                                    if self.debug: print(kk, list(seen)[-2])
                                    raise Undecided('loop changes the abstract state indefinitely at ' + u.loc(body))
                                if len(s3.stack) > len(st.stack) + 24:
                                    raise Undecided('unbounded pushing loop at ' + u.loc(whole))
                                seen[kk] = 1
                                work.append((s3, cnt + 1, False))
                                if cond is None: pass
                        elif k == 'break': exits.append(s2)
                        else: outs.append((k, s2, v))
        for s in dedupe_states(exits): outs.append(('next', s, None))
        return dedupe(outs)

    def s_While(self, u, n, st, fr):
        c = n['c']
        pre = None
        cond = c[0]
        if n.get('cv'):
            cv = n['cv']
            def pb(s): return self.decl(u, cv, s, fr)
            sts = pb(st)
            out = []
            for s in sts: out += self.loop(u, s, fr, cond, c[-1], None, n)
            return dedupe(out)
        return self.loop(u, st, fr, cond, c[-1], None, n)

    def s_Do(self, u, n, st, fr):
        c = n['c']
        return self.loop(u, st, fr, c[1], c[0], None, n, post=True)

    def s_For(self, u, n, st, fr):
        c = n['c']
        sts = [st]
        if c[0] is not None:
            sts = [s for k, s, v in self.ex(u, c[0], st, fr) if k == 'next']
        out = []
        for s in sts: out += self.loop(u, s, fr, c[1], c[3], c[2], n)
        return dedupe(out)

    def s_Range(self, u, n, st, fr):
        c = n['c']
        var = n.get('var')
        out = []
        for s, r in self.ev(u, c[0], st, fr):
            if r[0] == 'loc': r = self.rd(s, r)
            elem = None
            if r[0] == 'vcont': elem = ('v', r[1][1]) if r[1][0] == 'row' else ('v', ANY)
            elif r[0] == 'cont' and r[1] != 'stk': elem = ('loc', ('elt', r[1], None))
            def pb(s, elem=elem):
                if var is None or 'd' not in var: return [s]
                v = elem if elem is not None else self.by_type(u.T(var))
                if not u.T(var).endswith('&'): v = self.rd(s, v)
                return [s.setenv((fr[0], var['d']), v)]
            # unknown trip count: model as nondeterministic loop
            out += self.nondet(u, s, fr, c[-1], pb)
        return dedupe(out)

    def nondet(self, u, st, fr, body, pre):
        mods = self.modified(body)
        exits = [st]; outs = []; seen = {st.key()}
        st0 = self.widen(st, fr, mods)
        if st0 is not st: seen.add(st0.key())
        work = [(st0, 0)]
        while work:
            s, cnt = work.pop()
            s = s.cp()
            if s.asm:
                mk = {self.lookup(None, fr, d) for d in mods}
                s.asm = {a: b for a, b in s.asm.items() if not (a[1] & mk)}
            for p in pre(s):
                for k, s2, v in self.ex(u, body, p, fr):
                    if k in ('next', 'continue'):
                        s2 = self.loop_clean(self.widen(s2, fr, mods), fr, body)
                        exits.append(s2)
                        kk = s2.key()
                        if kk in seen: continue
                        seen.add(kk)
                        if cnt >= 12: raise Undecided('loop changes the abstract state indefinitely at ' + u.loc(body))
                        work.append((s2, cnt + 1))
                    elif k == 'break': exits.append(s2)
                    else: outs.append((k, s2, v))
        return dedupe(outs + [('next', s, None) for s in dedupe_states(exits)])

    def s_Switch(self, u, n, st, fr):
        c = [x for x in children(n)]
        body = n['c'][-1]
        sts = [st]
        if n.get('init'): sts = [s for s0 in sts for k, s, v in self.ex(u, n['init'], s0, fr)]
        if n.get('cv'): sts = [s for s0 in sts for s in self.decl(u, n['cv'], s0, fr)]
        out = []
        items = body.get('c', []) if body['k'] == 'Block' else [body]
        # flatten case labels
        flat = []; labels = []
        for x in items:
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append((x, len(flat)))
                x = (x.get('c') or [None])[-1]
            flat.append(x)
        for s0 in sts:
            for s, v in self.ev(u, n['c'][0], s0, fr):
                r = self.rd(s, v)
                cands = []
                hasdef = False
                for x, i in labels:
                    if x['k'] == 'Default': hasdef = True; continue
                    cv = self.case_val(u, x, s, fr)
                    cands.append((cv, i))
                di = [i for x, i in labels if x['k'] == 'Default']
                starts = []
                if r[0] == 'i' and all(cv is not None for cv, i in cands):
                    m = [i for cv, i in cands if cv == r[1]]
                    starts = m[:1] or di[:1]
                    if not starts: out.append(('next', s, None)); continue
                    for i in starts: out += self.brk(self.stmts(u, flat, i, [s], fr))
                    continue
                sw = self.switch_refine(u, n, s, fr)
                for cv, i in cands:
                    out += self.brk(self.stmts(u, flat, i, [s], fr))
                if hasdef: out += self.brk(self.stmts(u, flat, di[0], [s], fr))
                elif not self.exhaustive(u, n, cands): out.append(('next', s, None))
        return dedupe(out)
    def switch_refine(self, *a): return None
    def exhaustive(self, u, n, cands): return False
    def case_val(self, u, x, s, fr):
        if 'v' in x:
            try: return int(x['v'])
            except ValueError: pass
        c = x.get('c') or []
        if len(c) >= 2 and c[0] is not None:
            for s2, v in self.ev(u, c[0], s, fr):
                v = self.rd(s2, v)
                if v[0] == 'i': return v[1]
        return None
    def brk(self, outs):
        return [('next' if k == 'break' else k, s, None if k == 'break' else v) for k, s, v in outs]
    def s_Case(self, u, n, st, fr): return self.ex(u, (n.get('c') or [None])[-1], st, fr)
    s_Default = s_Case

    def s_Return(self, u, n, st, fr):
        c = n.get('c') or []
        if not c or c[0] is None: return [('return', st, None)]
        return dedupe([('return', s, v) for s, v in self.ev(u, c[0], st, fr)])
    def s_Break(self, u, n, st, fr): return [('break', st, None)]
    def s_Continue(self, u, n, st, fr): return [('continue', st, None)]

    def s_Try(self, u, n, st, fr):
        c = n['c']
        self.collect.append([])
        try:
            outs = self.ex(u, c[0], st, fr)
        finally:
            thrown = self.collect.pop()
        res = list(outs)
        for h in c[1:]:
            ct = h.get('ct'); ct = u.types[ct][1] if isinstance(ct, int) else ct
            sts = []
            for s, T in thrown:
                if self.catches(ct, T): sts.append(s)
            # locals of the try block are gone; keep the rest
            for s in dedupe_states(sts):
                res += self.catch_body(u, h, s, fr)
        # uncaught ones propagate
        if self.collect:
            for s, T in thrown:
                handled = T is not None and any(self.surely(u, h, T) for h in c[1:])
                alls = any(h.get('ct') is None for h in c[1:])
                if not handled and not alls: self.collect[-1].append((s, T))
        return dedupe(res)

    def catch_body(self, u, h, s, fr):
        hc = [x for x in h.get('c', ()) if x is not None and x['k'] != 'Var']
        return self.ex(u, hc[-1] if hc else None, s, fr)

    @staticmethod
    def bare(T): return re.sub(r'^const ', '', T).rstrip(' &*')
    def catches(self, ct, T):
        if ct is None or T is None: return True
        a, b = self.bare(T), self.bare(ct)
        return self.p.derived(a, b) or self.p.derived(b, a) or b.startswith('std::')
    def surely(self, u, h, T):
        ct = h.get('ct'); ct = u.types[ct][1] if isinstance(ct, int) else ct
        if ct is None: return True
        return self.p.derived(self.bare(T), self.bare(ct))

BASE = 1000000

def compat(a, b):
    """abstract type a possibly equal to declared type b"""
    if a[0] in ('any', 'var', 'multi') or b[0] in ('any', 'var'): return True
    if a[0] == 'oneof': return any(compat(x, b) for x in a[1])
    if a[0] == 'anyuni': return b[0] == 'uni'
    if a[0] == 'inj': return b[0] == 'uni' and 0 <= a[1] < len(b[1]) and compat(a[2], b[1][a[1]])
    if a[0] != b[0]: return False
    if a[0] == 'p': return a[1] == b[1]
    if a[0] == 'row': return compat(a[1], b[1])
    if a[0] in ('tup', 'uni'):
        return len(a[1]) == len(b[1]) and all(compat(x, y) for x, y in zip(a[1], b[1]))
    return True
