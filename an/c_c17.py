"""C17: no result depends on the order in which the compiler evaluates operands."""
import re
from src import walk, children, fn_nodes, Broken
from prog import strip, bare
import lib
from lib import lib_fns, nm, loc, unwrap, is_interp
from effects import isref, isptr, PASS, GROW, MAXLEN

EXPLANATION = ('For every expression of the library and of Fokko whose operands or arguments the language leaves unordered, the locations each operand reads and writes are computed '
               '(access paths, through all callees) and compared pairwise; in the interpreter the same is done for the evaluation stack.')
RULE = ('No operand or argument may write a location, or change the structure of a container, that an unsequenced sibling operand reads or writes. '
        '(&&, ||, comma, ?: and braced lists are ordered; C++14 rules for assignment, shift operators, subscripts and calls.)')
ASSUMPTIONS = ['containers and objects reached through different members or parameters are different',
               'const operations do not change what can be observed (C10 examines those that change hidden state)']

NOREAD = {'get_deleter', 'get_allocator', 'rdbuf'}
STRUCT = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'operator[]', 'at', 'front', 'back', 'top', 'capacity', 'length', 'data', 'find', 'lower_bound', 'upper_bound', 'count'}
SCALAR = re.compile(r'^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|size_t|unsigned|std::size_t|signed char|unsigned char|unsigned short|unsigned int|unsigned long|unsigned long long)$')

FWD = re.compile(r'^std::(make_pair|make_tuple|make_unique|make_shared|pair::pair|tuple::tuple|forward_as_tuple|tie)$')
def scalar(t):
    t = re.sub(r'^(const|volatile) ', '', t)
    return bool(SCALAR.match(t)) or isptr(t) or t.startswith('enum ')

class Order:
    def __init__(s, P):
        s.P = P; s.E = lib.lib_effects(P); s.memo = {}
        s.enums = getattr(P, 'enums', {})
        s.leaf = {}; s.mm = {}
    def callee_reads(s, t):
        if t not in s.leaf:
            g = s.E.info[t]
            rt = g.f['u'].types[g.f['ret']][1] if 'ret' in g.f else ''
            out = set() if scalar(rt) and not isptr(rt) else g.rl | g.rp
            R = g.R - out
            pre = {p[:k] for p in R | out for k in range(1, len(p))}
            s.leaf[t] = {p for p in R if p not in pre}
        return s.leaf[t]
    def const_write(s, t, p):
        """the callee promises not to change this location"""
        f = s.E.info[t].f
        if s.memoised(t): return True
        if p[0] == 'this': return f.get('const') or f.get('ctor')
        if isinstance(p[0], str):
            k = int(p[0][1:]); ty = f['u'].types[f['params'][k]['t']][1]
            return ty.startswith('const ') and isref(ty) and '*' not in p[1:]
        return False
    def memoised(s, t):
        """every change the function makes happens where it finds something not yet computed, and it hands out the stored value"""
        if t not in s.mm:
            s.mm[t] = False
            f = s.E.info[t].f
            r = f['u'].types[f['ret']][1] if 'ret' in f else ''
            b = f.get('body')
            if b and (isref(r) or isptr(r) or r == 'void'):
                ok = some = False
                for x in walk(b):
                    if x['k'] == 'If':
                        c = unwrap(x['c'][0])
                        if some: break
                        if any(y['k'] in ('Null',) for y in walk(c)) or any(y['k'] == 'Call' and y.get('n') in ('empty', 'size', 'is_defined') for y in walk(c)) or any(y['k'] == 'Mem' and isptr(s.E.T(s.E.info[t], y)) for y in walk(c)): some = True
                first = [x for x in b.get('c', ()) if x is not None][:1]
                early = bool(first) and first[0]['k'] == 'If' and any(y['k'] == 'Return' for y in walk(first[0]['c'][1])) and any(y['k'] == 'Mem' for y in walk(first[0]['c'][0]))
                if early and r == 'void': s.mm[t] = True; return True
                some = some or any(x['k'] == 'Call' and x.get('fn') in s.E.info and s.memoised(x['fn']) for x in walk(b))
                if some:
                    ok = True
                    par = lib.parents(b)
                    for x in walk(b):
                        ws = [p for kd, p in s.E.effects(s.E.info[t], x) if kd in 'wg' and (p[0] == 'this' or p[0][0] == 'g')]
                        if x['k'] == 'Call' and x.get('fn'):
                            tg = [y for y in s.P.targets(x) if y in s.E.info]
                            if tg and all(s.memoised(y) for y in tg): ws = []
                        if not ws: continue
                        y = x; inside = False
                        while id(y) in par:
                            z = par[id(y)]
                            if z['k'] in ('If',) and y is not z['c'][0]: inside = True
                            y = z
                        if not inside: ok = False
                s.mm[t] = ok
        return s.mm[t]
    def rw(s, fi, n):
        """reads [(path, kind)] and writes {path: node} of evaluating n as an operand"""
        key = id(n)
        if key in s.memo: return s.memo[key]
        R, W = {}, {}
        par = {}
        st = [n]; ns = []
        while st:
            x = st.pop(); ns.append(x)
            if x['k'] == 'Lambda': continue
            for c in children(x):
                if c is not None: par[id(c)] = x; st.append(c)
        for x in ns:
            k = x['k']
            if k in ('Ref', 'Mem', 'Un', 'Sub', 'Call') and s.loaded(fi, x, par.get(id(x)), n, par):
                t = s.E.T(fi, x)
                t0 = re.sub(r' ?&+$', '', t)
                kind = 'load' if scalar(t0) or k in ('Un',) else 'deep'
                if k == 'Un' and x['op'] != '*': kind = None
                if k == 'Call' and not isref(s.ret(fi, x)): kind = None
                if kind and x.get('n') not in NOREAD:
                    for p in s.E.den(fi, x): R.setdefault((p, kind), x)
            if k in ('Un', 'Mem', 'Sub') and (k != 'Un' or x['op'] == '*') and (k != 'Mem' or x.get('arrow')):
                # the pointer itself is read
                for p in s.E.den(fi, x['c'][0]): R.setdefault((p, 'load'), x)
            if k == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                for p in s.E.den(fi, x['c'][0]): W.setdefault(p, x)
            elif k == 'Un' and x['op'] in ('++', '--'):
                for p in s.E.den(fi, x['c'][0]): W.setdefault(p, x); R.setdefault((p, 'load'), x)
            elif k in ('Call', 'Con') and x.get('fn'):
                ts = [t for t in s.P.targets(x) if t in s.E.info]
                if ts and not x.get('q', '').startswith('std::'):
                    for t in ts:
                        g = s.E.info[t]
                        for p in s.E.subst(fi, x, s.callee_reads(t)): R.setdefault((p, 'deep'), x)
                        if x.get('cp'): continue
                        for S in (g.W, g.G):
                            S = {p for p in S if not s.const_write(t, p)}
                            for p in s.E.subst(fi, x, S): W.setdefault(p, x)
                else:
                    if not FWD.match(strip(x.get('q', ''))):
                        keep = None
                        for kd, p in s.E.effects(fi, x):
                            if kd in 'wg': W.setdefault(p, x)
                    s.extern(fi, x, R, W)
        s.memo[key] = R, W
        return R, W
    def ret(s, fi, x): return fi.u.types[x['rt']][1] if 'rt' in x else s.E.T(fi, x) if x.get('lv') else s.E.T(fi, x)
    def loaded(s, fi, x, p, root, par):
        """is the value of this glvalue read here (as opposed to bound to a reference, assigned, or used as base)"""
        if p is None: return False      # the parent operator decides; see operands()
        while p['k'] in ('ICast', 'Cast'):
            if p is root: return False
            x = p; p = par.get(id(p))
            if p is None: return False
        k = p['k']
        if k == 'Mem': return False
        if k == 'Un': return p['op'] not in ('&', '*', '++', '--')
        if k == 'Sub': return p['c'][1] is x and scalar(s.E.T(fi, x))
        if k == 'Bin':
            if p['op'] == '=' and p['c'][0] is x: return False
            if p['op'] == ',': return False
            return True
        if k == 'Cond': return p['c'][0] is x
        if k in ('Call', 'Con'):
            c = p.get('c', [])
            if p.get('m') or p.get('om'):
                if c and c[0] is x: return False
                c = c[1:]
            pt = p.get('pt', '')
            for i, y in enumerate(c):
                if y is x: return i < len(pt) and pt[i] == 'v' and scalar(s.E.T(fi, x))
            return False
        return False
    def extern(s, fi, x, R, W):
        o, a = s.E.args(x)
        if x['k'] == 'Con': o, a = None, x.get('c', [])
        q = strip(x.get('q', '')); pt = x.get('pt', '')
        if q in PASS: return
        if o is None and x.get('op') and a: o, a = a[0], a[1:]; pt = pt[1:] if not x.get('m') else pt
        if o is not None:
            kind = 'struct' if x.get('n') in STRUCT or x.get('op') in ('[]', '*', '->') else None
            if x.get('n') in NOREAD: return
            if kind is None and x.get('op') not in ('=', '<<', '>>') and x.get('cm'): kind = 'deep'
            if kind is None and x.get('n') in GROW | {'get', 'str', 'read', 'getline', 'peek'} and x.get('op') != '=': kind = 'struct'
            if kind and x.get('n') not in NOREAD:
                for p in (s.E.objpaths(fi, x) if x.get('m') else s.E.den(fi, o)): R.setdefault((p, kind), x)
            if x.get('n') == 'get' and x.get('m') and 'stream' in s.E.T(fi, o):
                for p in s.E.objpaths(fi, x): W.setdefault(p, x)
        for i, y in enumerate(a):
            if y is None: continue
            c = pt[i] if i < len(pt) else 'v'
            if c == 'c':
                for p in s.E.den(fi, y): R.setdefault((p, 'deep'), x)
    def operand(s, fi, n, byval):
        R, W = s.rw(fi, n)
        if byval:
            u = unwrap(n)
            if u is not None and u['k'] in ('Ref', 'Mem', 'Sub', 'Un', 'Call', 'Bin'):
                if u['k'] == 'Call' and not s.E.den(fi, u): return R, W
                if u['k'] == 'Un' and u['op'] not in ('*', '++', '--'): return R, W
                t = re.sub(r' ?&+$', '', s.E.T(fi, u))
                R = dict(R)
                for p in s.E.den(fi, u): R.setdefault((p, 'load' if scalar(t) else 'deep'), u)
        return R, W

def conflict(W, R):
    for p in W:
        for (q, kind) in R:
            if p[0] != q[0] or q[-1] == '#del' or p[-1] == '#del': continue
            m = min(len(p), len(q))
            if m >= MAXLEN: continue     # beyond the precision of the analysis
            if p[:m] != q[:m]: continue
            if kind == 'load' and len(p) <= len(q): return p, q
            if kind == 'struct' and len(p) <= len(q): return p, q
            if kind == 'deep' and (len(p) <= len(q) or '*' not in p[m:]): return p, q
    return None
def wwconf(W, V):
    for p in W:
        for q in V:
            if p[0] != q[0] or q[-1] == '#del' or p[-1] == '#del': continue
            m = min(len(p), len(q))
            if m >= MAXLEN: continue     # beyond the precision of the analysis
            if p[:m] == q[:m] and '*' not in p[m:] and '*' not in q[m:]: return p, q
    return None

def groups(E, fi, n):
    """unordered operands of n: list of (node, value is read)"""
    k = n['k']; c = n.get('c', ())
    if k == 'Bin':
        if n['op'] in ('&&', '||', ','): return ()
        asg = n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=')
        return [(c[0], n['op'] != '=' if asg else True), (c[1], True)] if not asg else [(c[0], False), (c[1], True)]
    if k == 'Sub': return [(c[0], True), (c[1], True)]
    if k == 'Call' or k == 'Con' and not n.get('list'):
        pt = n.get('pt', ''); off = 1 if (n.get('m') or n.get('om')) and k == 'Call' else 0
        out = []
        for i, x in enumerate(c):
            if x is None or x['k'] == 'DefArg': continue
            j = i - off
            out.append((x, j >= 0 and j < len(pt) and pt[j] == 'v'))
        return out
    return ()

def describe(p):
    r = p[0]
    if r == 'this': b = 'this object'
    elif isinstance(r, str): b = 'parameter %d' % (int(r[1:]) + 1)
    elif r[0] == 'g': b = r[1].split('::')[-1]
    else: b = 'a local variable'
    f = [x for x in p[1:] if x not in ('[]', '*')]
    return b + ('.' + '.'.join(f) if f else '')

def check(ctx):
    P = ctx.prog(); O = Order(P); E = O.E
    seen = set()
    for i, f in lib_fns(P):
        fi = E.info.get(i)
        if fi is None: continue
        ctx.count('functions')
        for n in E.nodes(f):
            g = groups(E, fi, n)
            if len(g) < 2: continue
            ctx.count('unordered_expressions')
            if all(simple(x) for x, _ in g): continue
            ef = [O.operand(fi, x, v) for x, v in g]
            if not any(W for R, W in ef): continue
            ctx.count('with_side_effects')
            for a in range(len(g)):
                for b in range(len(g)):
                    if a == b: continue
                    h = conflict(ef[a][1], ef[b][0]) if ef[a][1] else None
                    if h is None and a < b: h = wwconf(ef[a][1], ef[b][1])
                    if h is None: continue
                    key = 'order:%s:%s' % (nm(f), describe(h[1]))
                    if key in seen: break
                    seen.add(key)
                    ctx.violation(key, loc(f, n), '%s: one operand changes %s and another one, evaluated before or after it as the compiler pleases, uses it' % (nm(f), describe(h[1])))
                    break
    stack_order(ctx, P)
    ctx.floor('functions', 2000); ctx.floor('unordered_expressions', 20000); ctx.floor('with_side_effects', 500)

def simple(n):
    n = unwrap(n)
    return n is None or n['k'] in ('Ref', 'Lit', 'This', 'Int', 'Str', 'Bool', 'Null')

def stack_order(ctx, P):
    """in the interpreter: operands that take values from or leave values on the evaluation stack must not be unordered"""
    T = {i for i, f in P.fns.items() if is_interp(f) and any(n['k'] in ('Ref', 'Mem') and n.get('q', '').endswith('execution_stack') for n in fn_nodes(f))}
    if not T: raise Broken('the evaluation stack has vanished')
    T = P.closure(T, {i: [c for c in cs if c in P.fns] for i, cs in P.callers.items()})
    ctx.count('functions_using_evaluation_stack', len(T))
    for i, f in P.fns.items():
        if not is_interp(f): continue
        for n in fn_nodes(f):
            g = groups(None, None, n)
            if len(g) < 2: continue
            ctx.count('interpreter_expressions')
            k = sum(any(y['k'] in ('Call', 'Con') and any(t in T for t in P.targets(y)) for y in walk(x)) for x, _ in g)
            if k > 1:
                ctx.violation('stack:%s:%s' % (nm(f), n.get('n') or n.get('op')), loc(f, n), '%s takes values from or puts values on the evaluation stack in two operands whose order is not fixed' % nm(f))
