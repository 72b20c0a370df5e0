"""C15: references, pointers and iterators are not used after the storage they designate was given up; objects are not used after being moved from."""
import re
from src import walk, children
from prog import strip, bare
import lib, cfg
from effects import isref, isptr, ELEM, ITER, GROW, PASS

EXPLANATION = ('For every library function, each reference, pointer or iterator into an array-like container is followed over the control-flow graph; '
               'calls that may lengthen, shorten, replace or empty that container (directly or through any callee) end its validity. '
               'Likewise for references into temporaries, references to local variables that are returned, and objects whose value was moved away.')
RULE = ('No use of a reference/pointer/iterator is reachable from a growth of its container without rebinding; no reference to a part of a temporary outlives its statement; '
        'no reference to a local is returned; no moved-from variable is read.')
ASSUMPTIONS = ['containers reached through different members are different objects', 'erasing from or growing node-based lists invalidates nothing but what is erased']

VEC = re.compile(r'^std::(vector|deque|basic_string)\b')
# replaces the stored row only when it is asked about another one
REFRESH = {'find_pol_nr'}

LIST = re.compile(r'^(atlas::containers::(sl_list|simple_list|queue|stack|mirrored_sl_list|mirrored_simple_list)|std::(list|forward_list|queue|stack|set|map|multiset|multimap))\b')
TAKE = {'pop', 'pop_front', 'clear', 'erase', 'pop_back', 'assign', 'undump', 'operator='}

class Types:
    def __init__(s, P): s.P = P; s.cont = {}
    def container(s, T):
        """canonical array-like container type of T (its own type or a base), or None"""
        T = bare(T)
        if T in s.cont: return s.cont[T]
        s.cont[T] = None
        r = None
        if VEC.match(T): r = T
        elif T in s.P.classes:
            for b in s.P.classes[T].get('bases', ()):
                r = r or s.container(b[0])
        s.cont[T] = r
        return r
    def field(s, T, n):
        T = bare(T); c = s.P.classes.get(T)
        if c is None: return None
        for m in c['fields']:
            if m['n'] == n: return c['u'].types[m['t']][1]
        for b in c.get('bases', ()):
            r = s.field(b[0], n)
            if r: return r
        return None
    def elem(s, T):
        T = bare(T); c = s.container(T)
        m = re.match(r'^(.*)\[\d+\]$', T)
        if m: return m.group(1)
        T = c or T
        m = re.match(r'^[\w:]+<(.*)>$', T)
        if m: return first_arg(m.group(1))
        if T in s.P.classes:
            for b in s.P.classes[T].get('bases', ()):
                r = s.elem(b[0])
                if r: return r
        return None
    def deref(s, T):
        T = re.sub(r'( const| volatile|&)+$', '', T.strip())
        if T.endswith('*'): return T[:-1].strip()
        return s.elem(T)
    def path(s, fi, p):
        r = p[0]
        if r == 'this': T = fi.f.get('cls')
        elif isinstance(r, str): T = fi.u.types[fi.f['params'][int(r[1:])]['t']][1]
        elif r[0] == 'l': T = s.local(fi, r[1])
        else:
            v = s.P.vars.get(r[1]); T = v['u'].types[v['t']][1] if v and 'u' in v else None
        for x in p[1:]:
            if T is None: return None
            if x == '[]': T = s.elem(T)
            elif x == '*': T = s.deref(T)
            elif x.startswith('get'): return None
            else: T = s.field(T, x)
        return T
    def local(s, fi, d):
        m = getattr(fi, '_lt', None) if hasattr(fi, '_lt') else None
        f = fi.f
        if '_lt15' not in f:
            m = {}
            for r in [i['e'] for i in f.get('inits', ()) if i.get('e')] + ([f['body']] if f.get('body') else []):
                for n in walk(r):
                    if n['k'] == 'Var': m[n['d']] = fi.u.types[n['t']][1]
                    elif n['k'] == 'Range': m[n['var']['d']] = fi.u.types[n['var']['t']][1]
                    elif n['k'] == 'Lambda':
                        for p in n.get('params', ()): m[p['d']] = fi.u.types[p['t']][1]
            f['_lt15'] = m
        return f['_lt15'].get(d)

def first_arg(s):
    d = 0
    for i, c in enumerate(s):
        if c in '<(': d += 1
        elif c in '>)': d -= 1
        elif c == ',' and d == 0: return s[:i].strip()
    return s.strip()

class Life:
    def __init__(s, P):
        s.P = P; s.E = lib.lib_effects(P); s.T = Types(P); s.uag = {}; s.pooltypes = set()
        for q, c in P.classes.items():
            if '::HashTable<' in q:
                for m in c['fields']:
                    if m['n'] == 'd_pool': s.pooltypes.add(bare(c['u'].types[m['t']][1]))
    # containers a designated location lies in: [(container path, container type)]
    def prefixes(s, fi, p):
        out = []
        last = max([i for i, x in enumerate(p) if x == '*'], default=0)
        for i, x in enumerate(p):
            if x == '[]' and i > last:
                T = s.T.path(fi, p[:i])
                c = T and s.T.container(T)
                if c: out.append((p[:i], c))
        return out
    def growths(s, fi, n):
        """[(path, pool type or None)] that node n may grow"""
        out = []
        if strip(n.get('q', '')).split('::')[-1] in REFRESH: return out
        if n['k'] == 'Call' and (n.get('n') in TAKE or n.get('op') == '='): out += [(p, None) for p in s.listobj(fi, n)]
        for kind, p in s.E.effects(fi, n):
            if kind != 'g': continue
            T = s.T.path(fi, p)
            if T is None or not s.T.container(T): continue
            pool = None
            if p[-1] == 'd_pool' and len(p) == 2 and isinstance(p[0], tuple) and p[0][0] == 'l':
                for q in s.pool_of(fi, p[0][1]): out.append((q, None))
            if p[-1] == 'd_pool': pool = s.T.container(T)
            out.append((p, pool))
        return out
    def listobj(s, fi, n):
        """paths of the list-like object a member function call is applied to"""
        if n is None or n['k'] != 'Call' or not n.get('c'): return ()
        if not (n.get('m') or n.get('om')): return ()
        o = n['c'][0]
        while o['k'] in ('ICast', 'Cast') and not LIST.match(bare(s.E.T(fi, o))): o = o['c'][0]
        if not LIST.match(bare(s.E.T(fi, o))): return ()
        return s.E.objpaths(fi, n)
    def listref(s, fi, e):
        """bindings of an expression that designates the first (last) element of a list"""
        e = lib.unwrap(e)
        while e is not None and e['k'] == 'Mem' and e.get('fld') and not e.get('arrow'): e = lib.unwrap(e['c'][0])
        if e is not None and e['k'] == 'Un' and e['op'] == '&': e = lib.unwrap(e['c'][0])
        if e is None or e['k'] != 'Call': return set()
        if e.get('n') in ('front', 'top', 'back'): return {(p, 'LIST') for p in s.listobj(fi, e)}
        if e.get('op') == '*':
            b = lib.unwrap(e['c'][0])
            if b is not None and b['k'] == 'Con' and b['c']: b = lib.unwrap(b['c'][0])
            if b is not None and b['k'] == 'Call' and b.get('n') == 'begin': return {(p, 'LIST') for p in s.listobj(fi, b)}
        return set()
    def pool_of(s, fi, h):
        """paths of the container a local hash table refers to"""
        m = fi.f.get('_hash15')
        if m is None:
            m = {}
            for n in s.E.nodes(fi.f):
                if n['k'] == 'Var' and '::HashTable<' in fi.u.types[n['t']][1] and n.get('i') is not None:
                    i = lib.unwrap(n['i'])
                    if i is not None and i['k'] == 'Con' and i.get('c') and i['c'][0] is not None: m[n['d']] = s.E.den(fi, i['c'][0])
            fi.f['_hash15'] = m
        return m.get(h, ())
    def conflict(s, g, b):
        (gp, pool), (bp, bt) = g, b
        if gp == bp: return True
        if pool is None or pool != bt: return False
        # a pool reached through a hash table that refers to it
        r, t = gp[0], bp[0]
        if isinstance(t, tuple) and t[0] == 'l' and len(bp) == 1: return False
        if isinstance(r, str) and isinstance(t, str) and r != t and 'this' not in (r, t): return False
        return True
    def graph(s, f):
        if '_cfg' not in f: f['_cfg'] = cfg.CFG(f)
        return f['_cfg']

def nm(f): return lib.nm(f)
def holder(L, T, d=0):
    """values of type T designate storage elsewhere"""
    if isref(T) or isptr(T) or 'iterator' in T: return True
    c = L.P.classes.get(bare(T))
    if c is None or d > 3 or bare(T).startswith('std::'): return False
    if c.get('udd'): return False
    return any(holder(L, c['u'].types[m['t']][1], d + 1) for m in c['fields'])
def is_prvalue(E, fi, n):
    """temporary object of class type"""
    n0 = n
    while n is not None and n['k'] in ('ICast', 'Cast') : n = n['c'][0]
    if n is None: return False
    if n['k'] == 'Con': return True
    if n['k'] == 'Call' and n.get('fn'):
        g = E.P.fns.get(n['fn'])
        if g is not None: return not isref(g['u'].types[g['ret']][1]) and not isptr(g['u'].types[g['ret']][1])
        return None
    return False

STORE = re.compile(r'^(std::(vector|deque|list|forward_list|queue|stack|set|map|array)|atlas::containers::\w+)<')
ADD = {'push_back', 'emplace_back', 'push', 'emplace', 'push_front', 'emplace_front', 'insert'}
def adding(par, n):
    p = par.get(id(n))
    while p is not None and p['k'] in ('ICast', 'Cast', 'Paren'): p = par.get(id(p))
    return p is not None and p['k'] == 'Call' and p.get('n') in ADD | {'clear', 'size', 'empty', 'reserve'}

def analyse(L, ctx, i, f):
    E = L.E; fi = E.info[i]; u = fi.u
    vs = {}       # candidate variable -> name
    stores = {}   # local containers of pointers
    for n in E.nodes(f):
        if n['k'] == 'Var' and not n.get('static'):
            T = u.types[n['t']][1]
            if holder(L, T): vs[n['d']] = n['n']
            elif not isref(T) and STORE.match(bare(T)) and '*' in T and 'unique_ptr' not in T and 'char *' not in T: stores[n['d']] = vs[n['d']] = n['n']
        elif n['k'] == 'Range':
            v = n['var']; T = u.types[v['t']][1]
            if holder(L, T): vs[v['d']] = v['n']
    grow = {}
    g = L.graph(f)
    for k, n in enumerate(g.nodes):
        if n['k'] in ('Call', 'Con', 'Bin'):
            gs = L.growths(fi, n)
            if gs: grow[k] = gs
    # containers reserved beforehand in this function: lengthening does not move their elements
    reserved = {}
    for k, n in enumerate(g.nodes):
        if k in grow and n['k'] == 'Call' and ('reserve' in n.get('n', '')):
            for p, pool in grow[k]: reserved.setdefault(p, []).append(k)
            reserved_pools(L, fi, n, reserved, k)
    if reserved:
        dom = reach_without(g)
        for k in list(grow):
            n = g.nodes[k]
            if n.get('n') in ('resize', 'clear', 'assign', 'swap', 'erase', 'pop_back', 'shrink_to_fit', 'operator=') and strip(n.get('q', '')).startswith('std::'): continue
            grow[k] = [x for x in grow[k] if not any(dom(r, k) for r in reserved.get(x[0], ()) ) and not (x[1] and any(dom(r, k) for r in reserved.get(('type', x[1]), ())))]
            if not grow[k]: del grow[k]
    # shortening at the end only affects what designates the end
    short = {}
    for k in list(grow):
        n = g.nodes[k]
        if n['k'] == 'Call' and n.get('n') == 'pop_back': short[k] = grow.pop(k)
    moved_ok = {}
    par = {}
    for r in [x['e'] for x in f.get('inits', ()) if x.get('e')] + [f['body']]: par.update(lib.parents(r))
    # moves
    moves = {}
    for k, n in enumerate(g.nodes):
        if n['k'] in ('Call', 'Con'):
            pt = n.get('pt') or ''
            cs = n['c'][1:] if n['k'] == 'Call' and (n.get('m') or n.get('om')) else n['c']
            for j, a in enumerate(cs):
                if a is None or j >= len(pt) or pt[j] != 'm': continue
                x = lib.unwrap(a)
                if x is not None and x['k'] == 'Call' and strip(x.get('q', '')) == 'std::move':
                    y = lib.unwrap(x['c'][0])
                    if y is not None and y['k'] == 'Ref' and y.get('dk') in ('local', 'parm') and 'd' in y:
                        if n['k'] == 'Con' and is_base_init(f, n): continue
                        if n['k'] == 'Con' or n.get('op') == '=' or sinks(L.P, n, j): moves.setdefault(k, []).append(y['d'])
    ranges = [n for n in E.nodes(f) if n['k'] == 'Range']
    ctx.count('functions')
    ctx.count('references_followed', len(vs))
    ctx.count('growing_operations', len(grow))
    ctx.count('values_moved', sum(map(len, moves.values())))
    # ---- temporaries and locals
    temporaries(L, ctx, fi, f)
    hazards(L, ctx, fi, f, g, grow, par)
    if not (vs and grow) and not moves: return
    def binding(S):
        out = set()
        for p in S:
            for b in L.prefixes(fi, p): out.add(b)
        return out
    info = {}
    def transfer(k, n, st):
        kk = n['k']
        if k in grow:
            add = set()
            for x in st:
                if x[0] == 'b' and any(L.conflict(gg, x[2]) for gg in grow[k]): add.add(('e' if own_erase(n, x[1]) else 's', x[1], k))
            if add: st = st | add
        if k in moves: st = st | {('m', d, k) for d in moves[k]}
        d = None; S = None; extra = ()
        if stores and kk == 'Call' and n.get('m') and n.get('n') in ADD and n.get('c'):
            o = lib.unwrap(n['c'][0])
            if o is not None and o['k'] == 'Ref' and o.get('d') in stores:
                for a in n['c'][1:]:
                    for x in walk(a) if a is not None else ():
                        if x['k'] == 'Un' and x['op'] == '&': st = st | {('b', o['d'], b) for b in binding(E.den(fi, x['c'][0]))}
                        elif x['k'] == 'Ref' and x.get('dk') == 'local' and x.get('d') in vs: st = st | {('b', o['d'], y[2]) for y in st if y[0] == 'b' and y[1] == x['d']} | {('s', o['d'], y[2]) for y in st if y[0] == 's' and y[1] == x['d']}
        if kk == 'Var' and n['d'] in stores: st = frozenset(x for x in st if x[1] != n['d'])
        elif kk == 'Var':
            d = n['d']
            if n.get('i') is not None and d in vs:
                T = u.types[n['t']][1]
                S = E.den(fi, n['i']) if isref(T) else E.ptr(fi, n['i'])
                if isref(T) or isptr(T): extra = L.listref(fi, n['i'])
        elif kk == '#rvar':
            d = n['var']['d']
            T = u.types[n['var']['t']][1]
            S = E.add(E.den(fi, n['rng']), '[]')
            if d not in vs: S = None
        elif kk == 'Bin' and n['op'] == '=' or kk == 'Call' and n.get('op') == '=' and len(n.get('c', ())) == 2:
            l = lib.unwrap(n['c'][0])
            if l is not None and l['k'] == 'Ref' and 'd' in l and l.get('dk') in ('local', 'parm') and fi.vt.get(l['d']) != 'ref':
                d = l['d']; S = E.ptr(fi, n['c'][1]) if d in vs else None
        elif kk == 'Call' and n.get('m') and n.get('n') in ('clear', 'assign', 'swap', 'reset', 'resize', 'operator='):
            o = lib.unwrap(n['c'][0])
            if o is not None and o['k'] == 'Ref' and 'd' in o: st = frozenset(x for x in st if not (x[0] == 'm' and x[1] == o['d']))
        if d is not None:
            st = frozenset(x for x in st if x[1] != d)
            if S or extra: st = st | {('b', d, b) for b in binding(S or ())} | {('b', d, b) for b in extra}
        return st
    ins = cfg.solve(g, frozenset(), transfer, lambda a, b: a | b)
    for k, n in enumerate(g.nodes):
        st = ins[k]
        if not st: continue
        if n['k'] == 'Ref' and 'd' in n and n.get('dk') in ('local', 'parm'):
            for x in st:
                if x[1] != n['d'] or x[0] == 'b': continue
                if assigned(par, n): continue
                if n['d'] in stores and adding(par, n): continue
                if x[0] == 'e':
                    if not dereferenced(par, n): continue
                    ctx.violation('%s:erased:%s' % (nm(f), vs[n['d']]), u.loc(n), '%s uses %s to access an element after erasing at that position (line %s)' % (nm(f), vs[n['d']], g.nodes[x[2]].get('l')))
                elif x[0] == 's':
                    w = g.nodes[x[2]]
                    ctx.violation('%s:%s' % (nm(f), vs[n['d']]), u.loc(n), '%s uses %s after %s (line %s) may have moved or removed what it designates' % (nm(f), vs[n['d']], strip(w.get('q', 'assignment')), w.get('l')))
                else:
                    w = g.nodes[x[2]]
                    if harmless(par, n): continue
                    ctx.violation('%s:moved:%s' % (nm(f), n['q']), u.loc(n), '%s uses %s after its value was moved away (line %s)' % (nm(f), n['q'], w.get('l')))
        elif n['k'] == '#loop' or n['k'] == '#rvar': pass
    # container of a range-based loop grown inside the loop
    for r in ranges:
        bs = set()
        for p in E.add(E.den(fi, r['c'][0]), '[]'): bs |= set(L.prefixes(fi, p)[-1:])
        if LIST.match(bare(E.T(fi, r['c'][0]))): bs |= {(p, 'LIST') for p in E.den(fi, r['c'][0])}
        ctx.count('range_loops')
        if not bs: continue
        inside = {id(x) for x in walk(r['c'][1])}
        for k, gs in grow.items():
            if id(g.nodes[k]) in inside and any(L.conflict(gg, b) for gg in gs for b in bs) and reaches(g, k, r):
                ctx.violation('%s:range' % nm(f), u.loc(g.nodes[k]), '%s changes the container it is traversing' % nm(f))

def own_erase(n, d):
    """v.erase(it): it designates the next element afterwards"""
    if n['k'] != 'Call' or n.get('n') != 'erase': return False
    return any(x['k'] == 'Ref' and x.get('d') == d for a in n['c'][1:2] for x in walk(a))
def is_base_init(f, n):
    for i in f.get('inits', ()):
        if i.get('e') is not None and i.get('base') and any(x is n for x in walk(i['e'])): return True
    return False
def reserved_pools(L, fi, n, reserved, k):
    for p, pool in L.growths(fi, n):
        T = L.T.path(fi, p)
        c = T and L.T.container(T)
        if c in L.pooltypes: reserved.setdefault(('type', c), []).append(k)
def reach_without(g):
    memo = {}
    def dom(r, k):
        """every path from the entry to k passes r"""
        if r not in memo:
            seen = {g.entry}; w = [g.entry]
            while w:
                i = w.pop()
                if i == r: continue
                for j, l in g.succ[i]:
                    if j not in seen: seen.add(j); w.append(j)
            memo[r] = seen
        return k not in memo[r] and k != r
    return dom
def reaches(g, k, r):
    """node k can reach the head of range loop r again"""
    seen = {k}; w = [k]
    while w:
        i = w.pop()
        n = g.nodes[i]
        if n['k'] == '#rvar' and n['var'] is r['var']: return True
        for j, l in g.succ[i]:
            if j not in seen: seen.add(j); w.append(j)
    return False

def sinks(P, n, j):
    f = P.fns.get(n.get('fn'))
    return True

def assigned(par, n):
    p = par.get(id(n)); y = n
    while p is not None and p['k'] in ('ICast', 'Cast'): y = p; p = par.get(id(p))
    if p is None: return False
    if (p['k'] == 'Bin' and p['op'] == '=' or p['k'] == 'Call' and p.get('op') == '=') and p['c'][0] is y: return True
    return False
def dereferenced(par, n):
    p = par.get(id(n)); y = n
    while p is not None and p['k'] in ('ICast', 'Cast'): y = p; p = par.get(id(p))
    return p is not None and (p['k'] == 'Un' and p['op'] == '*' or p['k'] == 'Mem' and p.get('arrow') or p['k'] == 'Call' and p.get('op') in ('*', '->', '[]') and p['c'][0] is y)
def harmless(par, n):
    """taking up a moved-from object again"""
    p = par.get(id(n)); y = n
    while p is not None and p['k'] in ('ICast', 'Cast'): y = p; p = par.get(id(p))
    return p is not None and p['k'] == 'Call' and p.get('m') and p['c'][0] is y and p.get('n') in ('clear', 'assign', 'swap', 'reset', 'resize')

def temporaries(L, ctx, fi, f):
    E = L.E; u = fi.u
    def into_temp(n, lv):
        """glvalue (lv) or pointer-like value designating part of a temporary; returns the temporary's node"""
        while n is not None and n['k'] in ('ICast', 'Cast'): n = n['c'][0]
        if n is None: return None
        k = n['k']
        if k == 'Mem' and n.get('fld') and not n.get('arrow'): return obj(n['c'][0])
        if k == 'Call':
            if n.get('m') or n.get('om'):
                if n.get('arrow'): return None
                t = [x for x in L.P.targets(n) if x in E.info]
                o = n['c'][0]
                if t and not n.get('q', '').startswith('std::'):
                    g = E.info[t[0]]
                    S = g.rl if lv else g.rp
                    own = any(p[0] == 'this' and '*' not in p and owned(g, p) for p in S)
                    if own: return obj(o)
                    return None
                if n.get('n') in (ELEM if lv else ITER) and L.T.container(L.E.T(fi, o)): return obj(o)
        if k == 'Cond': return into_temp(n['c'][1], lv) or into_temp(n['c'][2], lv)
        return None
    def owned(g, p):
        T = g.f.get('cls')
        for x in p[1:]:
            if T is None: return False
            T = L.T.elem(T) if x == '[]' else L.T.field(T, x)
            if T is not None and (isref(T) or isptr(T)): return False
        return True
    def obj(o):
        y = o
        while y is not None and y['k'] in ('ICast', 'Cast'): y = y['c'][0]
        if y is None: return None
        T = bare(E.T(fi, y))
        if 'iterator' in T or isptr(E.T(fi, y)): return None
        if is_prvalue(E, fi, y): return y
        r = into_temp(y, True)
        return r
    for n in E.nodes(f):
        if n['k'] == 'Var' and n.get('i') is not None:
            T = u.types[n['t']][1]
            i = n['i']
            if isref(T):
                x = lib.unwrap(i)
                if x is not None and x['k'] == 'Mem': continue      # lifetime is extended
                t = into_temp(i, True)
            elif isptr(T) or 'iterator' in T: t = into_temp(i, False)
            else: continue
            ctx.count('bindings_checked')
            if t is not None: ctx.violation('%s:temp:%s' % (nm(f), n['n']), u.loc(n), '%s keeps %s, which designates part of a temporary object' % (nm(f), n['n']))
        elif n['k'] == 'Range':
            t = into_temp(n['c'][0], True)
            x = lib.unwrap(n['c'][0])
            ctx.count('bindings_checked')
            if t is not None and not (x is not None and x['k'] == 'Mem'):
                ctx.violation('%s:temp:range' % nm(f), u.loc(n), '%s traverses part of a temporary object' % nm(f))
        elif n['k'] == 'Return' and n.get('c') and n['c'][0] is not None and n.get('inlam') is None:
            rt = u.types[f['ret']][1]
            if isref(rt):
                ctx.count('returned_references')
                for p in E.den(fi, n['c'][0]):
                    if p[0][0] == 'l' and '*' not in p and own_local(L, fi, p): ctx.violation('%s:return' % nm(f), u.loc(n), '%s returns a reference to its local variable' % nm(f))
                    if isinstance(p[0], str) and p[0][0] == 'p' and '*' not in p and not isref(u.types[f['params'][int(p[0][1:])]['t']][1]) and all(pathowned(L, fi, p)):
                        ctx.violation('%s:return' % nm(f), u.loc(n), '%s returns a reference to its by-value parameter' % nm(f))
                if into_temp(n['c'][0], True) is not None: ctx.violation('%s:return' % nm(f), u.loc(n), '%s returns a reference into a temporary' % nm(f))
            elif isptr(rt) or 'iterator' in rt:
                for p in E.ptr(fi, n['c'][0]):
                    if p[0][0] == 'l' and '*' not in p and own_local(L, fi, p): ctx.violation('%s:return' % nm(f), u.loc(n), '%s returns a pointer or iterator into its local variable' % nm(f))

def pathowned(L, fi, p):
    for i in range(1, len(p)):
        T = L.T.path(fi, p[:i + 1])
        yield T is not None and not isref(T) and not isptr(T)
def own_local(L, fi, p):
    T = L.T.local(fi, p[0][1])
    if T is None or isref(T) or isptr(T) or 'iterator' in T: return False
    return all(pathowned(L, fi, p))

def hazards(L, ctx, fi, f, g, grow, par):
    """operands of one expression: a designated element and a growth of its container, in unspecified or unfortunate order"""
    E = L.E; u = fi.u
    gid = {id(g.nodes[k]): gs for k, gs in grow.items()}
    if not gid: return
    def prefs(S):
        o = set()
        for p in S: o |= set(L.prefixes(fi, p))
        return o
    for n in E.nodes(f):
        if n['k'] == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or n['k'] == 'Call' and n.get('op') in lib.ASSIGN:
            bs = prefs(E.den(fi, n['c'][0]))
            if not bs or len(n['c']) < 2: continue
            ctx.count('assignments_to_elements')
            for x in walk(n['c'][1]):
                for gg in gid.get(id(x), ()):
                    if any(L.conflict(gg, b) for b in bs):
                        ctx.violation('%s:assign' % nm(f), u.loc(n), '%s assigns to an element of a container that the assigned expression may grow' % nm(f))
        if n['k'] in ('Call', 'Con') and n.get('fn'):
            cs = n['c'][1:] if n['k'] == 'Call' and (n.get('m') or n.get('om')) else n['c']
            pt = n.get('pt') or ''
            refs = []
            for j, a in enumerate(cs):
                if a is None or j >= len(pt): continue
                if pt[j] in 'cr':
                    bs = prefs(E.den(fi, a))
                    if bs: refs.append((j, bs))
            if n['k'] == 'Call' and (n.get('m') or n.get('om')) and not n.get('arrow'):
                bs = prefs(E.den(fi, n['c'][0]))
                if bs: refs.append((-1, bs))
            if not refs: continue
            for j, bs in refs:
                # a sibling argument grows the container
                for j2, a in enumerate(cs):
                    if j2 == j or a is None: continue
                    for x in walk(a):
                        for gg in gid.get(id(x), ()):
                            if any(L.conflict(gg, b) for b in bs): ctx.violation('%s:arg' % nm(f), u.loc(n), '%s passes an element of a container together with an argument that may grow it' % nm(f))
                # the callee itself grows it and goes on using the argument
                for t in L.P.targets(n):
                    for pp, path, pool in after_growth(L, t):
                        if pp != j: continue
                        for q in E.subst(fi, n, {path}):
                            if any(L.conflict((q, pool), b) for b in bs):
                                ctx.violation('%s:param' % nm(f), u.loc(n), '%s passes an element of a container to %s, which may grow that container before using it' % (nm(f), strip(n.get('q', ''))))

def after_growth(L, fid):
    """{(parameter index or -1 for the object, growing path, pool)}: parameter may be used after that path was grown"""
    if fid in L.uag: return L.uag[fid]
    L.uag[fid] = out = set()
    f = L.P.fns.get(fid); fi = L.E.info.get(fid)
    if f is None or fi is None or strip(f['q']).startswith('std::'): return out
    refp = {p['d']: j for j, p in enumerate(f['params']) if isref(fi.u.types[p['t']][1]) and 'stream' not in fi.u.types[p['t']][1]}
    g = L.graph(f)
    grow = {}
    for k, n in enumerate(g.nodes):
        if n['k'] in ('Call', 'Con', 'Bin'):
            gs = [x for x in L.growths(fi, n) if x[0][0] == 'this' or isinstance(x[0][0], str) or x[0][0][0] == 'g']
            if gs: grow[k] = gs
    if not grow: return out
    def transfer(k, n, st):
        if k in grow: st = st | set(grow[k])
        return st
    ins = cfg.solve(g, frozenset(), transfer, lambda a, b: a | b)
    for k, n in enumerate(g.nodes):
        st = ins[k]
        if not st: continue
        if n['k'] == 'Ref' and n.get('d') in refp:
            for p, pool in st: out.add((refp[n['d']], p, pool))
        elif n['k'] == 'This':
            for p, pool in st:
                if p[0] != 'this': out.add((-1, p, pool))
    return out

REMOVE = {'erase', 'remove', 'remove_if', 'pop_front', 'clear', 'pop_back', 'truncate'}
class Removed:
    """functions that may take nodes out of a list that is part of a longer lived object, by type of what the nodes hold"""
    def __init__(s, L):
        s.L = L; P = L.P; s.by = {}
        for i, f in lib.lib_fns(P):
            fi = L.E.info.get(i)
            if fi is None or not f.get('body') or strip(f['q']).startswith(('std::', 'atlas::containers::')): continue
            for n in L.E.nodes(f):
                if n['k'] != 'Call' or n.get('n') not in REMOVE: continue
                o = n['c'][0] if n.get('c') else None
                if o is None: continue
                while o['k'] in ('ICast', 'Cast') and not LIST.match(bare(L.E.T(fi, o))): o = o['c'][0]
                T = bare(L.E.T(fi, o))
                if not LIST.match(T) or 'queue<' in T[:40] or 'stack<' in T[:40]: continue
                if not any(p[0] == 'this' or isinstance(p[0], tuple) and p[0][0] == 'g' for p in L.listobj(fi, n)): continue
                for c in s.parts(L.T.elem(T)): s.by.setdefault(c, set()).add(i)
        # what those nodes own goes with them
        for c in list(s.by):
            for o in s.owned(c):
                k = s.L.P.classes[o]   # objects with an identity, not values
                if not any(T.endswith('&') or 'unique_ptr' in T for T in (k['u'].types[m['t']][1] for m in k['fields'])): continue
                s.by[o] = s.by.get(o, set()) | s.by[c]
        for c in s.by: s.by[c] = P.closure(s.by[c], P.callers)
    def owned(s, c):
        out = set(); w = [c]
        while w:
            k = s.L.P.classes.get(w.pop())
            if k is None: continue
            for T in [k['u'].types[m['t']][1] for m in k['fields']] + [b[0] for b in k.get('bases', ())]:
                if T.endswith(('&', '*')): continue
                for x in [T] + re.findall(r'atlas::[\w:]+', T) + re.findall(r'(?=(atlas::[\w:]+<[\w:, ]*>))', T):
                    x = re.sub(r'^const ', '', x.strip())
                    if x in s.L.P.classes and x not in out and not x.startswith('atlas::containers::'): out.add(x); w.append(x)
        return out
    def parts(s, T, d=0):
        out = set()
        if T is None or d > 3: return out
        T = re.sub(r'^const ', '', T.strip()); T = re.sub(r'( const|&)+$', '', T).strip()
        m = re.match(r'^std::pair<(.*)>$', T)
        if m:
            a = first_arg(m.group(1)); b = m.group(1)[len(a) + 1:]
            return s.parts(a, d + 1) | s.parts(b, d + 1)
        if T.startswith('atlas::') and T in s.L.P.classes: out.add(T)
        return out

def removed(L, R, ctx, i, f):
    E = L.E; fi = E.info[i]; u = fi.u
    cand = {}
    for n in E.nodes(f):
        if n['k'] == 'Var' and not n.get('static') and n.get('i') is not None:
            T = u.types[n['t']][1]
            if isref(T) or isptr(T):
                B = bare(T[:-1].strip() if isptr(T) else T)
                if B in R.by and isref(T): cand[n['d']] = (n['n'], B)
                elif B in R.by: cand[n['d']] = (n['n'], B)
    if not cand: return
    ctx.count('references_to_list_nodes', len(cand))
    g = L.graph(f); par = {}
    for r in [x['e'] for x in f.get('inits', ()) if x.get('e')] + [f['body']]: par.update(lib.parents(r))
    def hits(n):
        if n['k'] != 'Call' or not n.get('fn'): return set()
        ts = set(L.P.targets(n))
        return {d for d, (x, B) in cand.items() if ts & R.by[B]}
    def transfer(k, n, st):
        if n['k'] == 'Var' and n['d'] in cand:
            st = frozenset(x for x in st if x[0] != n['d'])
            ps = E.den(fi, n['i']) if isref(u.types[n['t']][1]) else E.ptr(fi, n['i'])
            if ps and not any(isinstance(p[0], tuple) and p[0][0] == 'l' or isinstance(p[0], str) and p[0] != 'this' and LIST.match(bare(u.types[f['params'][int(p[0][1:])]['t']][1])) for p in ps): st |= {(n['d'], 0)}
            return st
        h = hits(n)
        if h: st = frozenset((d, k) if w == 0 and d in h else (d, w) for d, w in st)
        return st
    ins = cfg.solve(g, frozenset(), transfer, lambda a, b: a | b)
    for k, n in enumerate(g.nodes):
        if n['k'] == 'Ref' and n.get('d') in cand and ins[k]:
            for d, w in ins[k]:
                if d == n['d'] and w and not assigned(par, n):
                    c = g.nodes[w]
                    ctx.violation('%s:node:%s' % (nm(f), cand[d][0]), u.loc(n), '%s uses %s after %s (line %s) may have removed the list node it designates' % (nm(f), cand[d][0], strip(c.get('q', '')), c.get('l')))

def check(ctx):
    P = ctx.prog()
    L = Life(P); R = Removed(L)
    for i, f in lib.lib_fns(P):
        if f.get('body') and i in L.E.info and not strip(f['q']).startswith('std::'):
            analyse(L, ctx, i, f)
            removed(L, R, ctx, i, f)
    ctx.floor('references_followed', 1000); ctx.floor('growing_operations', 1000); ctx.floor('values_moved', 100)
