"""C10: results depend only on explicit inputs (no hidden state, no nondeterminism source)."""
import re
from src import walk, fn_nodes, children
from prog import strip, bare
import lib

RULE = ('(1) no library function writes an object of static storage duration outside the table of session/initialisation variables; '
        '(2) a constant local static is initialised from constants only, a mutable one only in the key/value cache idiom: value recomputed '
        'whenever the stored key differs from the argument, key stored after recomputation; (3) time, random, environment and resource '
        'queries only reach progress output; (4) no ordering by address: no pointer-to-integer conversion, no relational comparison of '
        'pointers into different objects, no container ordered or hashed by pointer value; no unordered container traversal; (5) no mutable data member and no removal of const outside the tabled '
        'value-preserving representation changes.')
EXPLANATION = ('Every function of the library and Fokko (all directories outside sources/interpreter) is scanned; writes are resolved '
               'through references, pointers, iterators and callees by a whole-program effect analysis.')
ASSUMPTIONS = ['standard library functions other than the listed nondeterminism sources are deterministic',
               'reads of uninitialised memory are the subject of another property']

# variables of static storage duration that may change, with the reason
STATE = {
 r'atlas::commands::.*': 'state of the Fokko session (current group, mode stack, command tables)',
 r'atlas::(interactive_lattice::)?\(anonymous namespace\)::\w*(_input_buffer|inputBuf)': 'user input buffers with history',
 r'atlas::\(anonymous namespace\)::(completionGenerator|readLine)::\w+': 'readline glue',
 r'atlas::interactive_lattice::.*_input_buffer': 'user input buffer',
 r'atlas::constants::(eq_mask|lt_mask|leq_mask|firstbit|lastbit)': 'constant tables, filled once at start-up',
 r'atlas::io::MESSAGE_DIR': 'set once from the command line',
 r'rl_\w+': 'readline library variables',
 r'std::(cerr|cout|cin|clog)': 'standard streams',
}
INIT_ONLY = {'atlas::constants::': 'atlas::constants::init'}
# out-channel statics: name -> reason
CHANNEL = {'atlas::standardrepk::SRK_context::offender': 'side channel naming the offending root, written before every read'}
CHANNEL_READERS = {'atlas::standardrepk::SRK_context::witness'}
NONDET = {'time', 'clock', 'rand', 'random', 'srand', 'drand48', 'lrand48', 'rand_r', 'getenv', 'secure_getenv', 'getpid', 'gettimeofday',
          'clock_gettime', 'getrusage', 'difftime', 'localtime', 'gmtime', 'ctime', 'times', 'sysconf', 'gethostname', 'std::rand', 'std::time', 'std::clock',
          'std::getenv', 'std::srand', 'std::random_device', 'std::this_thread::get_id', 'getppid', 'pthread_self', 'tmpnam', 'getcwd'}
NONDET_RX = re.compile(r'^(std::chrono::.*::now|std::random_device.*|std::mersenne_twister_engine.*|std::linear_congruential_engine.*|std::uniform_int_distribution.*|std::thread::.*)')
STREAMY = re.compile(r'basic_(i|o|io)?f?stream|basic_ostream')

MUTABLE = {('atlas::innerclass::InnerClass', 'cofolded'): 'structure derived from the inner class, built on first use',
           ('atlas::filekl::cached_pol_info', 'cache'): 'coefficients read from an immutable file, keyed by index'}
CONSTCAST = {r'atlas::arithmetic::Rational::normalize': 'changes the representation, not the value',
             r'atlas::ratvec::RationalVector::normalize': 'changes the representation, not the value',
             r'atlas::free_abelian::Free_Abelian_light::r?begin': 'flattens the representation, not the value',
             r'atlas::containers::(weak_)?sl_list_const_iterator::\1?sl_list_const_iterator': 'shared base of the two iterator kinds'}

def drops_const(u, n):
    if n.get('st') == 'const': return True
    a = n['c'][0]
    if a is None or 't' not in a or 't' not in n: return False
    s, d = u.types[a['t']][1], u.types[n['t']][1]
    return s.endswith('*') and d.endswith('*') and s.startswith('const ') and not d.startswith('const ')

def nondet(q):
    q = strip(q)
    return q in NONDET or bool(NONDET_RX.match(q)) or q.startswith('atlas::time::Timer::') and not q.endswith('::Timer')

def allowed_state(g):
    return any(re.fullmatch(rx, g) for rx in STATE)

def check(ctx):
    P = ctx.prog()
    E = lib.lib_effects(P); ctx.prog_ = P
    statics = 0
    for i, fi in E.info.items():
        f = fi.f; u = f['u']
        ctx.count('functions_analysed')
        nodes = list(E.nodes(f))
        par = None
        # (1) direct writes to static storage
        for n in nodes:
            if n['k'] not in ('Bin', 'Un', 'Call', 'Con'): continue
            own = n['k'] in ('Bin', 'Un') or not any(t in E.info for t in P.targets(n)) if n['k'] in ('Call', 'Con') else True
            for k, p in E.effects(fi, n):
                if k == 'r' or p[0][0] != 'g' or not isinstance(p[0], tuple): continue
                g = p[0][1]
                if n['k'] in ('Call', 'Con') and not own and not any(x.get('dk') in ('slocal', 'global') for a in n.get('c', ()) if a for x in walk(a)): continue
                ctx.count('static_writes_seen')
                if allowed_state(g):
                    for pre, who in INIT_ONLY.items():
                        if g.startswith(pre) and f['q'] != who:
                            ctx.violation('%s:%s' % (lib.nm(f), g), u.loc(n), 'start-up table %s is modified outside %s' % (g, who))
                    continue
                if g in CHANNEL: continue
                if g.startswith(f['q'] + '::') and cache_ok(ctx, E, fi, f, nodes, g): continue
                ctx.violation('%s:%s' % (lib.nm(f), g.split('::')[-1]), u.loc(n),
                              'hidden state: %s modifies %s, an object of static storage duration, so later results may depend on earlier calls' % (lib.nm(f), g))
        # side channels are read only to report, not to decide
        for n in nodes:
            if n['k'] in ('Ref', 'Mem') and n.get('q') in CHANNEL and f['q'] not in CHANNEL_READERS and not lib.is_new(f):
                if par is None: par = lib.parents(f['body'])
                p = par.get(id(n))
                while p is not None and p['k'] in ('ICast', 'Paren'): p = par.get(id(p))
                if p is None or not (lib.is_assign(p) and p.get('op') == '=' and lib.unwrap(p['c'][0]) is n):
                    ctx.violation('%s:%s:read' % (lib.nm(f), n['q'].split('::')[-1]), u.loc(n), 'hidden state: %s uses %s, which holds what an earlier operation reported' % (lib.nm(f), n['q']))
        # (2) constant local statics must not depend on arguments
        for n in nodes:
            if n['k'] == 'Var' and n.get('static'):
                statics += 1
                T = u.types[n['t']][1]
                ini = n.get('i')
                if ini is None: continue
                for x in walk(ini):
                    if x['k'] == 'This' or x['k'] == 'Ref' and x.get('dk') in ('parm', 'local', 'binding'):
                        # lambda parameters/local constants inside the initialiser are its own
                        if x['k'] == 'Ref' and any(y.get('d') == x['d'] and y['k'] == 'Var' for y in walk(ini)): continue
                        if x['k'] == 'Ref' and x.get('dk') == 'local' and const_local(nodes, x['d'], u): continue
                        if any(y['k'] == 'Lambda' and any(q['d'] == x.get('d') for q in y.get('params', ())) for y in walk(ini)): continue
                        ctx.violation('%s:static:%s' % (lib.nm(f), n['n']), u.loc(n),
                                      'static local %s is initialised from %s: it keeps the value of the first call for all later ones' %
                                      (n['n'], 'the object' if x['k'] == 'This' else x['q']))
                        break
        # (3) nondeterminism sources
        taint = None
        for n in nodes:
            if f.get('cls') == 'atlas::time::Timer': break   # the stopwatch class itself
            if n['k'] in ('Call', 'Con') and n.get('q') and nondet(n['q']):
                ctx.count('nondeterminism_sources')
                if taint is None: taint = Taint(ctx, E, fi, f, nodes)
        if taint: taint.run()
        # (4) address order
        for n in nodes:
            k = n['k']
            if k in ('Cast', 'ICast') and n.get('ck') == 'PointerToIntegral':
                ctx.violation('%s:ptr2int' % lib.nm(f), u.loc(n), 'a pointer is converted to an integer: result depends on memory layout')
            if k == 'Bin' and n['op'] in ('<', '>', '<=', '>='):
                t = u.types[n['c'][0]['t']][1] if 't' in n['c'][0] else ''
                if lib._eff.isptr(t):
                    ctx.count('pointer_comparisons')
                    a = roots(E, fi, n['c'][0], nodes); b = roots(E, fi, n['c'][1], nodes)
                    if not (a & b):
                        ctx.violation('%s:ptrcmp' % lib.nm(f), u.loc(n), 'relational comparison of pointers into different objects depends on memory layout')
            if k in ('Call', 'Con') and 'fn' in n:
                q = n.get('q', '')
                if re.search(r'std::(less|greater|hash)<[^<>]*\*>', q) and n.get('op') == '()':
                    ctx.violation('%s:ptrorder' % lib.nm(f), u.loc(n), 'ordering or hashing by pointer value')
    # container types
    seen = set()
    for un in P.units:
        if un.name.startswith('interpreter/'): continue
        for t in un.types:
            T = t[1]
            if T in seen: continue
            seen.add(T)
            for m in re.finditer(r'std::(unordered_\w+|set|map|multiset|multimap|priority_queue)<', T):
                kind = m.group(1); args = targs(T, m.end())
                ctx.count('associative_container_types')
                if not args: continue
                key = args[0].strip()
                cmp_i = {'set': 1, 'multiset': 1, 'map': 2, 'multimap': 2}.get(kind)
                custom = cmp_i is not None and len(args) > cmp_i and not args[cmp_i].strip().startswith('std::')
                if kind.startswith('unordered'):
                    ctx.violation('type:' + kind + ':' + key[:60], un.name, 'unordered container %s: traversal order is unspecified' % T[:120])
                elif key.endswith('*') and not custom and kind != 'priority_queue':
                    ctx.violation('type:' + kind + ':' + key[:60], un.name, 'container %s is ordered by address' % T[:120])
    # (5) hidden state inside objects: mutable members and casts that remove const
    for q, c in P.classes.items():
        if '/interpreter/' in c['u'].loc(c): continue
        ctx.count('classes')
        for fl in c['fields']:
            if fl.get('mut'):
                ctx.count('mutable_members')
                if (strip(q), fl['n']) not in MUTABLE:
                    ctx.violation('%s:mutable:%s' % (strip(q), fl['n']), c['u'].loc(fl), 'member %s of %s may change in operations that only read the object' % (fl['n'], strip(q)))
    for i, fi in E.info.items():
        f = fi.f
        for n in E.nodes(f):
            if n['k'] == 'Cast' and n.get('st') in ('const', 'reinterpret', 'c') and drops_const(f['u'], n):
                ctx.count('const_removals')
                if not any(re.fullmatch(rx, lib.nm(f)) for rx in CONSTCAST):
                    ctx.violation('%s:const_cast' % lib.nm(f), f['u'].loc(n), 'const is cast away: an operation that only reads its operand can change it')
    ctx.count('static_locals', statics)
    nv = 0
    for q, v in P.vars.items():
        if v['u'].name.startswith('interpreter/') and '/interpreter/' in v['u'].loc(v): continue
        nv += 1
    ctx.count('namespace_variables', nv)
    ctx.floor('functions_analysed', 3500); ctx.floor('mutable_members', 2); ctx.floor('const_removals', 4);  ctx.floor('static_locals', 15); ctx.floor('static_writes_seen', 100)
    ctx.floor('nondeterminism_sources', 3); ctx.floor('namespace_variables', 40); ctx.floor('pointer_comparisons', 3)

def const_local(nodes, d, u):
    """a local that is itself a compile-time constant"""
    for n in nodes:
        if n['k'] == 'Var' and n['d'] == d:
            t = u.types[n['t']][1]
            return t.startswith('const ') and n.get('i') is not None and not any(x['k'] in ('This', 'Call') or x['k'] == 'Ref' and x.get('dk') in ('parm', 'local') for x in walk(n['i']))
    return False

def targs(T, pos):
    d = 0; cur = ''; out = []
    for c in T[pos:]:
        if c == '<': d += 1
        if c == '>':
            if d == 0: out.append(cur); return out
            d -= 1
        if c == ',' and d == 0: out.append(cur); cur = ''
        else: cur += c
    return out

def roots(E, fi, n, nodes):
    S = set()
    for p in E.ptr(fi, n): S.add(p[:-1] if p[-1] in ('[]', '*') and len(p) > 1 else p); S.add(p)
    for x in walk(n):
        if x['k'] == 'Ref' and x.get('dk') in ('local',): 
            for q in fi.env.get(x['d'], ()): S.add(q); S.add(q[:-1])
    return S

def cache_ok(ctx, E, fi, f, nodes, g):
    """static locals forming a cache whose key is compared with the argument"""
    stat = [n for n in nodes if n['k'] == 'Var' and n.get('static')]
    names = {n['d']: n for n in stat}
    # the guard: an If whose condition compares (something of) a static K with (the same thing of) a parameter
    guards = []
    for n in nodes:
        if n['k'] == 'If':
            c = lib.unwrap(n['c'][0])
            neg = False
            if c['k'] == 'Un' and c['op'] == '!': c = lib.unwrap(c['c'][0]); neg = True
            op = c.get('op')
            if c['k'] in ('Bin', 'Call') and op in ('!=', '==') and len(c['c']) == 2:
                differ = (op == '!=') != neg
                a, b = (shape(x) for x in c['c'])
                for x, y in ((a, b), (b, a)):
                    if x and y and x[0][0] == 's' and y[0][0] == 'p' and x[1:] == y[1:]:
                        guards.append((n, x[0][1], y[0][1], differ, x[1:]))
    for n, K, prm, differ, acc in guards:
        if not injective(ctx.prog_, E, f, prm, acc): continue
        if differ: body = n['c'][1]; stmts = body['c'] if body['k'] == 'Block' else [body]
        else:   # if (argument is the stored one) return stored result; recompute
            t = n['c'][1]; last = t['c'][-1] if t['k'] == 'Block' and t['c'] else t
            if last is None or last['k'] != 'Return': continue
            top = f['body']['c']
            if not any(x is n for x in top): continue
            stmts = top[[x is n for x in top].index(True) + 1:]
        inside = {id(x) for st in stmts if st for x in walk(st)}
        # every write to any of the static locals lies in the guarded part, which depends on no other argument
        stored = False; bad = False
        for x in nodes:
            for k, p in E.effects(fi, x) if x['k'] in ('Bin', 'Un', 'Call', 'Con') else ():
                if k == 'r' or p[0][0] != 'g' or not p[0][1].startswith(f['q'] + '::'): continue
                if id(x) not in inside: bad = True
            if id(x) in inside and (x['k'] == 'This' or x['k'] == 'Ref' and x.get('dk') == 'parm' and x['d'] != prm):
                if not any(y['k'] == 'Lambda' and any(q['d'] == x.get('d') for q in y.get('params', ())) for y in nodes): bad = True
        # the key is stored unconditionally, from the same parameter
        for st in stmts:
            if st and lib.is_assign(st) and st.get('op') == '=':
                a, b = shape(st['c'][0]), shape(st['c'][1])
                if a == (('s', K),) and b == (('p', prm),): stored = True
        # what is remembered is replaced as a whole: nothing of the previous value is used or left
        others = {d for d in names if d != K}
        for d in others:
            for st in stmts:
                if st is None or not any(x.get('d') == d for x in walk(st)): continue
                y = lib.unwrap(st); ok = False
                if lib.is_assign(y) and y.get('op') == '=':
                    ok = lib.unwrap(y['c'][0]).get('d') == d and not any(x.get('d') in names for x in walk(y['c'][1]))
                    if ok: break
                elif y['k'] == 'Call' and y.get('m') and y['c'] and lib.unwrap(y['c'][0]).get('d') == d and not any(x.get('d') in names for a in y['c'][1:] if a for x in walk(a)):
                    if y.get('n') in ('clear', 'fill', 'reset', 'assign'): break
                    ok = y.get('n') in ('set_capacity', 'resize', 'reserve')
                elif y['k'] == 'Call' and any(t in P_.fns and lib.is_new(P_.fns[t]) for P_ in (ctx.prog_,) for t in P_.targets(y)): break
                if not ok: bad = True; break
        early = any(x['k'] in ('Break', 'Return', 'Goto', 'Continue') for st in stmts if st for x in walk(st)) if differ else False
        if stored and not bad and not early:
            ctx.count('keyed_caches')
            return True
    return False

def injective(P, E, f, prm, acc):
    """does the accessor path determine the whole argument?"""
    if not acc: return True
    if len(acc) != 1: return False
    T = next(bare(f['u'].types[p['t']][1]) for p in f['params'] if p['d'] == prm)
    c = P.classes.get(T)
    if not c: return False
    import c_c11
    der = c_c11.DERIVED.get(strip(T)) or {}
    need = {x['n'] for x in c['fields'] if x['n'] not in der}
    if acc[0] in need and len(need) == 1: return True
    got = set()
    for i, g in P.fns.items():
        if g.get('cls') == T and g['n'] == acc[0] and not g['params'] and i in E.info:
            b = g['body']
            r = [x for x in b['c'] if x and x['k'] == 'Return'] if b['k'] == 'Block' else []
            if len(b.get('c', ())) == 1 and r:
                x = lib.unwrap(r[0]['c'][0])
                while x is not None and x['k'] == 'Con' and len(x['c']) == 1: x = lib.unwrap(x['c'][0])
                if x is not None and x['k'] == 'Mem' and x['c'][0] and x['c'][0]['k'] == 'This': got.add(x['n'])
    return need <= got

def shape(n):
    """('s',d) or ('p',d) root followed by accessor names"""
    n = lib.unwrap(n)
    if n is None: return None
    if n['k'] == 'Ref':
        if n.get('dk') == 'slocal': return (('s', n['d']),)
        if n.get('dk') == 'parm': return (('p', n['d']),)
        return None
    if n['k'] == 'Mem' and n.get('fld'):
        b = shape(n['c'][0]); return b and b + (n['n'],)
    if n['k'] == 'Call' and n.get('m') and len(n['c']) == 1:
        b = shape(n['c'][0]); return b and b + (n['n'],)
    return None

class Taint:
    """values obtained from clocks etc. may only reach streams"""
    def __init__(self, ctx, E, fi, f, nodes):
        self.ctx = ctx; self.E = E; self.fi = fi; self.f = f; self.nodes = nodes
    def run(self):
        f = self.f; u = f['u']
        par = lib.parents(f['body'])
        tainted = set()
        def src(n):
            return n['k'] in ('Call', 'Con') and n.get('q') and nondet(n['q'])
        def has(n):
            return any(src(x) or x['k'] == 'Ref' and x.get('d') in tainted for x in walk(n))
        ch = True
        while ch:
            ch = False
            for n in self.nodes:
                if n['k'] == 'Var' and n.get('i') is not None and n['d'] not in tainted and has_value(n['i'], has):
                    tainted.add(n['d']); ch = True
                elif lib.is_assign(n) and len(n['c']) == 2 and has_value(n['c'][1], has):
                    l = lib.unwrap(n['c'][0])
                    if l['k'] == 'Ref' and l.get('dk') == 'local':
                        if l['d'] not in tainted: tainted.add(l['d']); ch = True
                    else:
                        self.ctx.violation('%s:nondet' % lib.nm(f), u.loc(n), 'a value obtained from the clock, environment or a random source is stored')
                elif src(n):
                    for a in n['c']:
                        if a is None: continue
                        for x in walk(a):
                            if x['k'] == 'Ref' and x.get('dk') == 'local' and x['d'] not in tainted and u.types[x['t']][1] != 'int':
                                tainted.add(x['d']); ch = True
        for n in self.nodes:
            if not (src(n) or n['k'] == 'Ref' and n.get('d') in tainted): continue
            # climb to the consumer
            x = n
            while True:
                p = par.get(id(x))
                if p is None: break
                if p['k'] == 'Call' and p.get('op') == '<<' and STREAMY.search(u.types[p['c'][0]['t']][1]) and p['c'][0] is not x: break
                if src(p): x = p; continue
                if p['k'] in ('Call',) and not p.get('op') and not src(p) and p.get('fn') and not p.get('q', '').startswith('std::'):
                    self.ctx.violation('%s:nondet' % lib.nm(f), u.loc(n), 'a value obtained from the clock, environment or a random source is passed to %s' % p.get('q'))
                    break
                if p['k'] == 'Return':
                    self.ctx.violation('%s:nondet' % lib.nm(f), u.loc(n), 'a value obtained from the clock, environment or a random source is returned')
                    break
                if p['k'] in ('If', 'While', 'For', 'Do', 'Switch', 'Cond') and p['c'] and (p['c'][0] is x or p['k'] in ('Do', 'For')):
                    body = [y for y in p['c'] if y is not None and y is not x]
                    if not all(self.only_output(y) for y in body):
                        self.ctx.violation('%s:nondet' % lib.nm(f), u.loc(n), 'control flow other than progress output depends on the clock, environment or a random source')
                    break
                if p['k'] in ('Block', 'Decl', 'Var'): break
                x = p
    def only_output(self, b):
        for n in walk(b):
            if n['k'] in ('Return', 'Break', 'Continue', 'Throw', 'Goto'): return False
            if n['k'] in ('Bin', 'Un', 'Call', 'Con'):
                for k, p in self.E.effects(self.fi, n):
                    if k == 'r': continue
                    if p[0][0] == 'g' and p[0][1].startswith('std::c'): continue
                    return False
        return True

def has_value(n, has): return has(n)
