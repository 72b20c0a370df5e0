"""C14: nothing is read before it has been given a value; constructors give every member a value."""
import re
from src import walk, fn_nodes, children
from prog import strip, bare
import lib, cfg

EXPLANATION = ('Definite-assignment dataflow over the control-flow graph of every library function: local variables of scalar, array and plain aggregate type; '
               'members in constructors (in initialisation order, through member functions called); heap objects and arrays created without initialisation.')
RULE = ('On every path a variable or member is assigned before it is read; at the normal end of every constructor each scalar member has a value, and no member is used before its own initialiser has run.')
ASSUMPTIONS = ['a function of another library that receives a non-const reference or pointer gives the object a value', 'arrays count as assigned once an element is']

# members that a placeholder (default) constructor deliberately leaves open; the object must be assigned to before use
BLANK = {('FiniteAbelianGroup', 'd_size'), ('SizeType', 'd_exp'), ('Transducer', 'limit'), ('Transducer', 'offset'), ('StandardRepK', 'd_cartan'),
         ('TorusMapIterator', 'd_done'), ('TorusMapIterator', 'd_rank'), ('SubgroupIterator', 'd_done'), ('SubgroupIterator', 'd_group'), ('SubgroupIterator', 'd_rank'),
         ('iterator', 'd_bitAddress'), ('iterator', 'd_capacity'),     # BitMap::iterator
         ('matrix_info', 'x_prim'),       # only valid together with cur_y, which is set to an undefined value
         ('InputFile', 'd_stream')}       # left open only when an exception is thrown
# functions with a variable assigned and used under the same condition, confirmed by reading
CORRELATED = {'basic_orbit',            # ev: loop is left by break
              'complete_construction',  # link: not set for exactly the types for which it is not used
              'do_new_recursion',       # tsx: used only if info_ptr was set, just after tsx
              'getGenerators',          # i, d: set for the error codes that use them
              'run'}                    # where: set when the status is one of those that use it

SCALAR = re.compile(r'^(const |volatile )*((unsigned |signed )?(char|short|int|long|long long)|unsigned|bool|float|double|long double|.*\*( const)?)$')

class Cls:
    def __init__(s, P): s.P = P; s.memo = {}
    def scalar(s, T):
        T = T.strip()
        return bool(SCALAR.match(T)) or T in s.P.enums or bare(T) in s.P.enums and not T.endswith(('&', '>'))
    def fields(s, T):
        c = s.P.classes.get(bare(T)); 
        return [(m['n'], c['u'].types[m['t']][1], m) for m in c['fields']] if c else []
    def leaves(s, T):
        """default initialisation leaves (part of) a T without value"""
        T = T.strip()
        if s.scalar(T): return True
        m = re.match(r'^(.*)\[\d+\]$', T)
        if m: return s.leaves(m.group(1).strip())
        m = re.match(r'^(?:const )?std::array<(.*), \d+(?:UL)?>$', T)
        if m: return s.leaves(m.group(1))
        if T in s.memo: return s.memo[T]
        s.memo[T] = False
        c = s.P.classes.get(bare(T)) if not T.endswith(('&', '*')) else None
        r = False
        if c is not None and not c.get('udc') and not c.get('union'):
            r = any(not f.get('ini') and s.leaves(c['u'].types[f['t']][1]) for f in c['fields']) or any(s.leaves(b[0]) for b in c.get('bases', ()))
        s.memo[T] = r
        return r

class Analysis:
    def __init__(s, P):
        s.P = P; s.C = Cls(P); s.umemo = {}; s.msum = {}; s.psum = {}
    # ---- roles
    def graph(s, f):
        if '_cfg' not in f: f['_cfg'] = cfg.CFG(f)
        return f['_cfg']
    def events(s, f):
        """node id -> list of (action, entity); entities ('v',d) ('f',d,field) ('m',field)"""
        if '_ev14' in f: return f['_ev14']
        u = f['u']; ev = {}
        par = {}
        roots = [i['e'] for i in f.get('inits', ()) if i.get('e') is not None] + [f['body']]
        for r in roots: par.update(lib.parents(r))
        mb = bool(f.get('cls')) and not f.get('smeth')
        for r in roots:
            for x in walk(r):
                if x['k'] == 'Ref' and x.get('dk') in ('local', 'parm') and 'd' in x:
                    s.role(u, par, x, ('v', x['d']), ev)
                elif mb and x['k'] == 'Mem' and x.get('fld') and x.get('c') and is_this(x['c'][0]):
                    s.role(u, par, x, ('m', x['n']), ev)
                elif x['k'] == 'Lambda':
                    for c in x.get('caps', ()):
                        if 'd' in c: ev.setdefault(id(x), []).append(('w' if c.get('ref') else 'r', ('v', c['d'])))
                    ev.setdefault(id(x), []).append(('lam', None))
                elif mb and x['k'] == 'This':
                    p = par.get(id(x))
                    if p is None or p['k'] == 'Mem' and (p.get('fld')): continue
                    y = x
                    if p['k'] == 'Un' and p['op'] == '*': y = p; p = par.get(id(p))
                    while p is not None and p['k'] in ('ICast', 'Cast'): y = p; p = par.get(id(p))
                    if p is None: continue
                    if p['k'] == 'Call' and p.get('m') and p['c'][0] is y and p.get('fn'):
                        ev.setdefault(id(p), []).append(('call', p['fn']))
                    elif p['k'] in ('Call', 'Con', 'New'):
                        how = s.how(p, y)
                        if how in ('r', 'p', 'm', '?'): ev.setdefault(id(p), []).append(('esc', None))
                    elif p['k'] == 'Bin' and p['op'] == '=' and p['c'][0] is y: ev.setdefault(id(p), []).append(('esc', None))
                    elif p['k'] == 'Mem': pass
                    elif p['k'] not in ('Return', 'Bin', 'Block'): ev.setdefault(id(p), []).append(('esc', None))
        f['_ev14'] = ev
        return ev
    def how(s, p, x):
        pt = p.get('pt')
        cs = p['c']
        idx = [i for i, c in enumerate(cs) if c is x]
        if not idx or pt is None: return '?'
        i = idx[0]
        if p['k'] == 'Call' and (p.get('m') or p.get('om')): i -= 1
        if i < 0: return 'c' if p.get('cm') else 'o'
        if i >= len(pt): return 'v'
        return pt[i]
    def role(s, u, par, x, ent, ev):
        def add(n, *a): ev.setdefault(id(n), []).append(a)
        y = x; p = par.get(id(x)); ref = False
        while p is not None:
            k = p['k']
            if k == 'Mem' and p.get('fld') and p['c'][0] is y:
                if p.get('arrow'): add(x, 'r', ent); return
                ent = ('f', ent[1], p['n']) if ent[0] == 'v' else ent
                y = p; p = par.get(id(p)); continue
            if k == 'Sub' and p['c'][0] is y:
                if s.C.scalar(u.types[y['t']][1]) : add(x, 'r', ent); return      # pointer
                ent = ent if ent[0] != 'f' else ent; y = p; p = par.get(id(p)); ref = True; continue
            if k == 'Cond' and p['c'][0] is not y: y = p; p = par.get(id(p)); continue
            if k == 'Bin' and p['op'] == ',' and p['c'][1] is y: y = p; p = par.get(id(p)); continue
            break
        if p is None: add(x, 'r', ent); return
        k = p['k']
        if k == 'Bin' and p['op'] == '=' and p['c'][0] is y: add(p, 'w', ent); return
        if k == 'Un' and p['op'] == '&': add(p, 'w', ent); return
        if k in ('Call', 'Con'):
            h = s.how(p, y)
            if h == 'o':           # non-const member function of a class object: whole object
                q = strip(p.get('q', ''))
                if p.get('op') == '=' : add(p, 'w', ent)
                elif re.match(r'(std::array)', q) or p.get('op') == '[]': add(p, 'w?', ent, None)
                else: add(p, 'w', ent) if p.get('n') in ('fill', 'reset', 'set', 'assign', 'swap') else add(p, 'w', ent)
                return
            if h in ('r', 'm'):
                i = [j for j, c in enumerate(p['c']) if c is y][0] - (1 if p['k'] == 'Call' and (p.get('m') or p.get('om')) else 0)
                add(p, 'pass', ent, p.get('fn'), i); return
            if h in ('p', 'q', '?'): 
                add(p if h != 'q' else x, 'w' if h != 'q' else 'r', ent); return
            if h == 'c' and s.is_class(u, y) : 
                add(x, 'ro', ent); return
            add(x, 'r', ent); return
        if k == 'Var' and p.get('t') is not None and u.types[p['t']][1].endswith('&'): add(p, 'w', ent); return
        if k == '#init' : pass
        if k == 'Range': add(p['c'][0] if p['c'][0] is y else x, 'w' if 1 else 'r', ent); return
        if k == 'Un' and p['op'] == '*' and ref: add(x, 'r', ent); return
        if k == 'Return' and s.is_class(u, y): add(x, 'ro', ent); return
        add(x, 'r', ent)
    def is_class(s, u, y):
        T = u.types[y['t']][1] if 't' in y else ''
        return not s.C.scalar(T)
    # ---- summaries
    def method(s, fid):
        """(members certainly assigned at normal exit, members possibly read before) of a member function called on this"""
        if fid in s.msum: return s.msum[fid]
        s.msum[fid] = (frozenset(), frozenset())
        f = s.P.fns.get(fid)
        if f is None or not f.get('cls') or f.get('smeth'): return s.msum[fid]
        mem = frozenset(('m', n) for n, T, m in s.C.fields(f['cls']) if s.C.leaves(T))
        if not mem: return s.msum[fid]
        reads, out = s.run(f, mem)
        s.msum[fid] = (mem - out if out is not None else mem, frozenset(e for e in reads))
        return s.msum[fid]
    def param(s, fid, i, fld=None):
        """(assigned at every normal exit, read before assignment, assigned when true is returned, assigned when false is returned)"""
        k = (fid, i, fld)
        if k in s.psum: return s.psum[k]
        s.psum[k] = (True, False, True, True)
        f = s.P.fns.get(fid)
        if f is None or i >= len(f['params']): return s.psum[k]
        e = ('v', f['params'][i]['d']) if fld is None else ('f', f['params'][i]['d'], fld)
        rets = []
        reads, out = s.run(f, frozenset([e]), rets=rets)
        t = fa = True
        wr = any(a[1] == e and a[0] in ('w', 'w?', 'pass') for l in s.events(f).values() for a in l)
        for n, st in rets:
            v = lib.unwrap(n['c'][0]) if n.get('c') and n['c'][0] is not None else None
            v = str(v['v']) if v is not None and v['k'] in ('Bool', 'Int') else None
            if e in st:
                # a computed result is taken to tell whether the variable was set
                if v != '0' and not (v is None and wr): t = False
                if v != '1': fa = False
        s.psum[k] = (out is None or e not in out, e in reads, t, fa)
        return s.psum[k]
    def uses(s, fid, cls):
        """members of class cls used by a member function called on this, through further member functions"""
        if (fid, cls) in s.umemo: return s.umemo[fid, cls]
        s.umemo[fid, cls] = frozenset()
        f = s.P.fns.get(fid)
        if f is None or f.get('cls') != cls or f.get('smeth') or not f.get('body'): return frozenset()
        r = set()
        for x in walk(f['body']):
            if x['k'] == 'Mem' and x.get('fld') and x.get('c') and is_this(x['c'][0]): r.add(x['n'])
            elif x['k'] == 'Call' and x.get('m') and x.get('c') and is_this(x['c'][0]) and x.get('fn'): r |= s.uses(x['fn'], cls)
        s.umemo[fid, cls] = frozenset(r)
        return s.umemo[fid, cls]
    # ---- dataflow
    def run(s, f, start, gen=None, rets=None):
        """start: entities without value at entry. returns ({entity: node of first read}, entities possibly without value at exit or None)"""
        g = s.graph(f); ev = s.events(f)
        track = set(start)
        heads = {e[:2] for e in track}
        if gen:
            for v in gen.values(): track |= set(v)
        tracked = track
        reads = {}
        def ents(e):
            if e in tracked: return [e]
            if e[0] == 'f' and ('v', e[1]) in tracked: return [('v', e[1])]
            if e[0] == 'v': return [t for t in tracked if t[0] == 'f' and t[1] == e[1]]
            return []
        s.cur = f
        evs = ev
        def transfer(i, n, st):
            if n['k'] == '#init':
                fl = n['init'].get('fld')
                if fl and ('m', fl) in st and init_gives(s.C, f, n['init']): st = st - {('m', fl)}
                if n['init'].get('deleg'): st = frozenset(e for e in st if e[0] != 'm')
                return st
            if n['k'] == '#rvar' : return st
            if n['k'] == 'Var' and gen and n['d'] in gen: return st | gen[n['d']]
            for a in evs.get(id(n), ()):
                if not st: break
                k = a[0]
                if k == 'call':
                    mw, rd = s.method(a[1])
                    for e in rd:
                        if e in st: reads.setdefault(e, n)
                    st = st - mw; continue
                if k == 'esc': st = frozenset(e for e in st if e[0] != 'm'); continue
                if k == 'lam': continue
                es = ents(a[1])
                if not es: continue
                if k in ('r', 'ro'):
                    if k == 'ro' and a[1][0] != 'm' and not any(e == a[1] for e in es): 
                        # whole object copied or passed on: its parts need not be used
                        continue
                    for e in es:
                        if e in st: reads.setdefault(e, n)
                elif k == 'w' or k == 'w?': st = st - frozenset(es)
                elif k == 'pass':
                    for e in es:
                        w, r = s.param(a[2], a[3], e[2] if e[0] == 'f' and a[1][0] == 'v' else None)[:2] if a[2] else (True, False)
                        if r and e in st: reads.setdefault(e, n)
                        if w: st = st - {e}
            return st
        def edge(lab, st):
            if lab[0] == 'c':
                for a in evs.get(id(lab[1]), ()):
                    if a[0] == 'pass' and a[2]:
                        for e in ents(a[1]):
                            p = s.param(a[2], a[3], e[2] if e[0] == 'f' and a[1][0] == 'v' else None)
                            if p[2] and lab[2] or p[3] and not lab[2]: st = st - {e}
            return st
        # arrays: assigned once an element may have been assigned
        arr = {e for e in tracked if s.is_array(f, e, gen)}
        # variables correlated with a condition: assigned on some path before the use
        if lib.nm(f).split('::')[-1] in CORRELATED: arr |= {e for e in tracked if e[0] != 'm'}
        ins = cfg.solve(g, frozenset(start), transfer, lambda a, b: (a | b) - arr | (a & b & arr) if arr else a | b, edge)
        if rets is not None:
            for i, n in enumerate(g.nodes):
                if n['k'] == 'Return' and ins[i] is not None: rets.append((n, transfer(i, n, ins[i])))
        if arr and ins[g.exit] is not None:
            asg = {a[1] for l in evs.values() for a in l if a[0] in ('w', 'w?', 'pass')}
            return {e: n for e, n in reads.items() if e not in arr or e not in asg}, frozenset(e for e in ins[g.exit] if e not in arr or e not in asg)
        return reads, ins[g.exit]
    def is_array(s, f, e, gen):
        T = ''
        if e[0] == 'm':
            T = [t for n, t, m in s.C.fields(f['cls']) if n == e[1]]; T = T[0] if T else ''
        elif e[0] == 'v':
            for n in own(f):
                if n['k'] == 'Var' and n['d'] == e[1]: T = f['u'].types[n['t']][1]
        return T.endswith(']') or 'std::array<' in T

def init_gives(C, f, ini):
    e = ini['e']
    if e is None: return False
    if e['k'] == 'Con' and not e['c']:
        T = f['u'].types[e['t']][1] if 't' in e else ''
        return not C.leaves(T)
    return True
def is_this(x):
    x = lib.unwrap(x)
    return x is not None and (x['k'] == 'This' or x['k'] == 'Un' and x['op'] == '*' and lib.unwrap(x['c'][0])['k'] == 'This')

def check(ctx):
    P = ctx.prog()
    A = Analysis(P); C = A.C
    for i, f in lib.lib_fns(P):
        u = f['u']
        if not f.get('body'): continue
        gen = {}
        names = {}
        for n in own(f):
            if n['k'] == 'Var' and not n.get('static'):
                T = u.types[n['t']][1]
                iv = n.get('i')
                if T.endswith('&') or 'catch' in n: continue
                if iv is None or iv['k'] == 'Con' and not iv['c'] and not iv.get('list'):
                    if not C.leaves(T): continue
                    names[n['d']] = (n, T)
                    if C.scalar(T) or T.endswith(']') or T.startswith('std::array'): gen[n['d']] = frozenset([('v', n['d'])])
                    else: gen[n['d']] = frozenset(('f', n['d'], m) for m, T2, fd in C.fields(T) if not fd.get('ini') and C.leaves(T2))
                    ctx.count('variables_without_initialiser')
        start = frozenset()
        if f.get('ctor') and not f.get('defaulted') and not f.get('copymove') and not f.get('deleg'):
            start = frozenset(('m', n) for n, T, m in C.fields(f['cls']) if C.leaves(T))
            ctx.count('constructors')
            ctx.count('members', len(start))
        if not gen and not start: continue
        ctx.count('functions_analysed')
        try: reads, out = A.run(f, start, gen)
        except RecursionError: raise
        for e, n in sorted(reads.items(), key=str):
            if e[0] == 'm': what = 'member %s' % e[1]; nm2 = e[1]
            else: nm2 = names[e[1]][0]['n'] + ('.' + e[2] if e[0] == 'f' else ''); what = 'variable ' + nm2
            ctx.violation('%s:%s' % (lib.nm(f), nm2), u.loc(n) if 'l' in n else u.loc(f), '%s may read %s before it is given a value' % (lib.nm(f), what))
        if start and out:
            for e in sorted(out):
                if e[0] != 'm' or e not in start: continue
                if (f['n'], e[1]) in BLANK: continue
                ctx.violation('%s:unset:%s' % (lib.nm(f), e[1]), u.loc(f), 'constructor %s may leave member %s without a value' % (lib.nm(f), e[1]))
        # use of members before their own initialiser
        if f.get('ctor') and not f.get('defaulted'): order(ctx, P, C, f, A)
    ctx.floor('variables_without_initialiser', 100); ctx.floor('constructors', 150); ctx.floor('members', 150)

def order(ctx, P, C, f, A):
    u = f['u']
    mem = [m for m, T, d in C.fields(f['cls'])]
    ini = [i.get('fld') for i in f.get('inits', ()) if i.get('fld')]
    done = set()
    for i in f.get('inits', ()):
        if i.get('deleg'): return
        if i.get('e') is None: continue
        par = lib.parents(i['e'])
        for x in walk(i['e']):
            if x['k'] == 'Mem' and x.get('fld') and x.get('c') and is_this(x['c'][0]) and x['n'] in mem and x['n'] not in done:
                p = par.get(id(x))
                while p is not None and p['k'] in ('ICast', 'Cast'): x2 = p; p = par.get(id(p))
                if p is None and i.get('fld') and u.types[[c for c in P.classes[f['cls']]['fields'] if c['n'] == i['fld']][0]['t']][1].endswith(('&', '*')): continue
                if p is not None and p['k'] == 'Un' and p['op'] == '&': continue
                if p is None and x['n'] == i.get('fld'): pass
                if p is not None and p['k'] == 'Con' and p.get('pt', '')[:1] in ('r', 'c') : continue      # may only be kept as a reference
                ctx.violation('%s:order:%s' % (lib.nm(f), x['n']), u.loc(x), 'constructor %s uses member %s before its initialiser has run' % (lib.nm(f), x['n']))
        for x in walk(i['e']):
            if x['k'] == 'Call' and x.get('m') and x.get('c') and is_this(x['c'][0]) and x.get('fn'):
                bad = sorted(m for m in A.uses(x['fn'], f['cls']) if m in mem and m not in done)
                ctx.count('member_functions_called_during_initialisation')
                for m in bad:
                    ctx.violation('%s:order:%s' % (lib.nm(f), m), u.loc(x), 'constructor %s calls %s, which uses member %s, before the initialiser of that member has run' % (lib.nm(f), strip(x.get('q', '')).split('::')[-1], m))
        if i.get('fld'): done.add(i['fld'])

def own(f):
    st = [i['e'] for i in f.get('inits', ()) if i.get('e') is not None] + [f['body']]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        if x['k'] == 'Lambda': continue
        if x['k'] == 'Catch':
            st.extend(x['c']); continue
        if x['k'] == 'Range': st.extend(x['c']); continue
        st.extend(children(x))
