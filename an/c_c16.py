"""C16: failures are contained and reported, and leave what was in force in force."""
import re
from src import walk, children, fn_nodes
from prog import strip, bare
import lib, cfg, taw
from lib import lib_fns, nm, loc, unwrap, is_interp

EXPLANATION = ('The exception types that may leave every function are computed over the whole call graph (catch clauses, rethrows, calls through the command tables included). '
               'Handlers are followed path by path to see that they pass the failure on or report it. For commands that change the session state, a control-flow analysis '
               'across calls finds state already changed at a point where the command may still fail.')
RULE = ('Nothing escapes the command loop, destructors, noexcept functions, mode exit functions; exceptions visible to the interpreter derive from std::exception; every handler '
        'rethrows, throws or reports on every path; mode entry handlers always throw; session state is not written before a possible failure; deleted pointers are replaced before anything '
        'can fail; table columns are marked done only after they are filled, and partial columns are removed on failure.')
ASSUMPTIONS = ['exhaustion of memory inside standard containers is considered only for the filling of Kazhdan-Lusztig tables',
               'state built on first use (guarded by a test on itself) is not session state']
ANY = '<any>'
FUNC = re.compile(r'^void \(\*?\)?\(\)|^void \(\*\)\(\)|void \(\*(const)?\)\(\)')
MARK_EXEMPT = {'plug_hole': 'documented way to exclude a column from later computation'}

def check(ctx):
    P = ctx.prog()
    if hasattr(P, 'throws'): del P.throws
    P.extra_throws = {'atlas::interpreter::check_interrupt': ('std::interrupt',)}
    P.compute_throws()
    E = lib.lib_effects(P)
    fns = {i: f for i, f in lib_fns(P)}
    modes(ctx, P, fns)
    containment(ctx, P, fns)
    handlers(ctx, P, E, fns)
    state(ctx, P, E, fns)
    dangling(ctx, P, E, fns)
    tables(ctx, P, E, fns)
    ctx.floor('functions_examined', 2000)

# ---------------------------------------------------------------- the mode and command tables
def fnref(n):
    n = unwrap(n)
    if n is not None and n['k'] == 'Un' and n['op'] == '&': n = unwrap(n['c'][0])
    return n['d'] if n is not None and n['k'] == 'Ref' and n.get('dk') == 'fn' else None

def modes(ctx, P, fns):
    ctx.entry, ctx.exitf, ctx.commands = set(), set(), set()
    for i, f in fns.items():
        for n in fn_nodes(f):
            if n['k'] == 'Con' and n.get('n') == 'CommandNode' and len(n.get('c', ())) >= 2:
                a = [fnref(x) if x else None for x in n['c']]
                if a[1]: ctx.entry.add(a[1])
                if len(a) > 2 and a[2]: ctx.exitf.add(a[2])
            if n['k'] == 'Call' and n.get('n') in ('add', 'nohelp_add') and 'CommandNode' in n.get('q', ''):
                for x in n['c']:
                    r = fnref(x) if x else None
                    if r: ctx.commands.add(r)
    ctx.count('mode_entries', len(ctx.entry)); ctx.floor('mode_entries', 5)
    ctx.count('mode_exits', len(ctx.exitf)); ctx.floor('mode_exits', 4)
    ctx.count('commands', len(ctx.commands)); ctx.floor('commands', 60)

# ---------------------------------------------------------------- containment
def covers(P, ct, ty):
    return ct == '...' or ct == ty or ty != ANY and P.derived(ty, ct) or ct == 'std::exception' and ty.startswith('std::') 

def containment(ctx, P, fns):
    T = P.throws
    for i, f in fns.items():
        ctx.count('functions_examined')
        t = {x for x in T.get(i, ()) if x != 'std::interrupt'}
        if f.get('dtor') and t:
            ctx.violation('dtor:' + nm(f), loc(f), '%s: %s may escape from a destructor, which ends the program' % (nm(f), sorted(t)[0]))
        elif f.get('noexcept') and t:
            ctx.violation('noexcept:' + nm(f), loc(f), '%s is declared noexcept but %s may escape from it' % (nm(f), sorted(t)[0]))
    for i in sorted(ctx.exitf):
        t = T.get(i, ())
        if t: ctx.violation('exit:' + nm(P.fns[i]), loc(P.fns[i]), '%s, called when a mode is left, may throw %s, but leaving modes must always succeed' % (nm(P.fns[i]), sorted(t)[0]))
    # command loop: what main calls
    mains = [f for i, f in fns.items() if strip(f['q']) == 'main' and '/interface/' in f['u'].loc(f)]
    if not mains: mains = [f for i, f in fns.items() if strip(f['q']) == 'main' and 'interface/' in f['u'].loc(f)]
    ctx.count('mains', len(mains)); ctx.floor('mains', 1)
    poss = set()
    for i in ctx.entry | ctx.commands: poss |= T.get(i, set())
    poss = {t for t in poss if t != 'std::interrupt'} | {ANY}
    ctx.sample('commands and mode entries may throw: %s' % sorted(poss - {ANY}))
    loops = 0
    seen = set()
    w = [c for m in mains for n in fn_nodes(m) if n['k'] == 'Call' and n.get('fn') in fns for c in [n['fn']]]
    while w:
        i = w.pop()
        if i in seen: continue
        seen.add(i)
        f = fns[i]; u = f['u']
        if not f.get('body'): continue
        has = any(indirect(P, n) for n in fn_nodes(f))
        def go(n, gs, inloop):
            nonlocal loops
            k = n['k']
            if k == 'Try':
                c = n['c']
                g = tuple((P.catch_type(u, h), h) for h in c[1:])
                go(c[0], (g,) + gs, inloop)
                for h in c[1:]: go(h, gs, inloop)
                return
            if k in ('While', 'For', 'Do', 'Range'): inloop = True
            if inloop:
                ts = set()
                if indirect(P, n): ts = set(poss)
                elif k in ('Call', 'Con') and n.get('fn'):
                    for t in P.targets(n):
                        ts |= {x for x in T.get(t, ()) if x != 'std::interrupt'}
                        if t in P.fns and t in activators: ts |= poss
                if ts:
                    loops += 1
                    for ty in ts:
                        ok = False
                        for level in gs:
                            for ct, h in level:
                                if covers(P, ct, ty): ok = True; break
                            if ok: break
                        if not ok:
                            ctx.violation('loop:%s:%s' % (nm(f), ty), loc(f, n), '%s: %s thrown by a command would leave the command loop and end the program' % (nm(f), 'an exception of arbitrary type' if ty == ANY else ty))
            for c in children(n): go(c, gs, inloop)
        activators = {j for j, g in fns.items() if any(indirect(P, n) for n in fn_nodes(g)) or any(n['k'] == 'Call' and n.get('fn') in fns and any(indirect(P, m) for m in fn_nodes(fns[n['fn']])) for n in fn_nodes(g))}
        # only functions that themselves contain the loop over commands
        if i in activators and any(n['k'] in ('While', 'For', 'Do') for n in fn_nodes(f)): go(f['body'], (), False)
        for c in P.callees.get(i, ()):
            if c in fns: w.append(c)
    ctx.count('command_loop_calls', loops); ctx.floor('command_loop_calls', 2)
    # what the interpreter sees
    n = 0
    for i, f in P.fns.items():
        if is_interp(f): continue
        called = any(c in P.fns and is_interp(P.fns[c]) for c in P.callers.get(i, ()))
        if not called: continue
        n += 1
        for t in T.get(i, ()):
            if t == 'std::interrupt' or t.startswith('std::') or P.derived(t, 'std::exception'): continue
            ctx.violation('interp:%s:%s' % (nm(f), t), loc(f), '%s, called by the interpreter, may throw %s, which the interpreter does not catch (not derived from std::exception)' % (nm(f), t))
    ctx.count('functions_called_by_interpreter', n); ctx.floor('functions_called_by_interpreter', 300)

def indirect(P, n):
    """call through a pointer to a parameterless function"""
    if n['k'] != 'Call' : return False
    if n.get('fn') is None: return n.get('ce') is not None and not [x for x in n.get('c', ()) if x is not None]
    q = n.get('q', '')
    return n.get('op') == '()' and 'Command' in q or 'Command::operator()' in q

# ---------------------------------------------------------------- handlers
def handlers(ctx, P, E, fns):
    for i, f in fns.items():
        u = f['u']
        for n in fn_nodes(f):
            if n['k'] != 'Try': continue
            for h in n['c'][1:]:
                ctx.count('handlers')
                ct = P.catch_type(u, h)
                # exceptions that reach it
                if ct.endswith('EntryError') and i not in ctx.entry: continue    # reported where it was thrown
                fi = E.info[i]
                g = cfg.CFG(None, {'k': 'Block', 'c': list(h['c'])})
                def tr(k, x, s):
                    return s or reports(P, E, fi, x)
                ins = cfg.solve(g, False, tr, lambda a, b: a and b)
                s = ins[g.exit]
                if i in ctx.entry:
                    if s is not None:
                        ctx.violation('entry:%s:%s' % (nm(f), ct), loc(f, h), '%s: after %s is caught the mode is entered as if all had gone well' % (nm(f), ct))
                elif i in fns and not re.search(r'(^|/)(interface|io|test|stand-alone)/', u.loc(f)) and nm(f) != 'main' and not is_main(u, f):
                    # library code cannot report: it must pass the failure on, or compute by other means what the guarded code was to set
                    ctx.count('library_handlers')
                    def tr2(k, x, s): return s or x['k'] == 'Call' and x.get('n') in cfg.NORETURN
                    s = cfg.solve(g, False, tr2, lambda a, b: a and b)[g.exit]
                    if s is False and not flagged(f, h) and not fallback(n, h):
                        ctx.violation('swallow:%s:%s' % (nm(f), ct), loc(f, h), '%s: the handler for %s ends normally without passing the failure on and without another way to compute the result' % (nm(f), ct if ct != '...' else 'any exception'))
                elif s is False and not flagged(f, h):
                    ctx.violation('swallow:%s:%s' % (nm(f), ct), loc(f, h), '%s: the handler for %s neither passes the failure on nor reports it' % (nm(f), ct if ct != '...' else 'any exception'))
    ctx.floor('handlers', 15)

def reports(P, E, fi, n):
    if n['k'] == 'Call':
        if n.get('n') in cfg.NORETURN: return True
        for kind, p in E.effects(fi, n):
            if kind == 'w' and p[0] in (('g', 'std::cerr'), ('g', 'std::cout')): return True
        if n.get('op') == '()' and 'error::' in n.get('q', ''): return True
    return False

def is_main(u, f): return f.get('n') == 'main'

def direct_targets(ns):
    out = set()
    for n in ns:
        if lib.is_assign(n):
            l = unwrap(n['c'][0])
            if l['k'] == 'Ref': out.add(l['d'])
            elif l['k'] == 'Mem': out.add(('m', l['n']))
    return out

def fallback(tr, h):
    """the handler assigns what the guarded block was to assign"""
    a = direct_targets(walk(tr['c'][0])); b = direct_targets(m for c in h['c'] if c for m in walk(c))
    return bool(a) and a <= b

def flagged(f, h):
    """the handler sets a local flag that the function tests afterwards in order to throw"""
    flags = set()
    for m in walk({'k': 'Block', 'c': list(h['c'])}):
        if m['k'] == 'Bin' and m['op'] == '=':
            l = unwrap(m['c'][0])
            if l['k'] == 'Ref' and l.get('dk') == 'local': flags.add(l['d'])
    if not flags: return False
    for n in fn_nodes(f):
        if n['k'] == 'If' and any(x['k'] == 'Ref' and x.get('d') in flags for x in walk(n['c'][0])):
            if any(b is not None and any(x['k'] == 'Throw' for x in walk(b)) for b in n['c'][1:3]): return True
    return False

def bases(P, T):
    out = [T]
    for B in out:
        for b in P.classes.get(B, {}).get('bases', ()): out.append(bare(b[0]))
    return out

# ---------------------------------------------------------------- session state
def state(ctx, P, E, fns):
    # variables of the command modes
    G = {}
    for q, v in P.vars.items():
        u = v.get('u')
        if u is None: continue
        l = u.loc(v)
        if 'interface/' in l and q.startswith('atlas::commands::'): G[('g', q)] = v
    ctx.count('mode_variables', len(G)); ctx.floor('mode_variables', 12)
    stack = {g for g in G if re.search(r'vector<const .*CommandTree', G[g]['u'].types[G[g]['t']][1])}
    skip = {g for g in G if re.search(r'InputBuffer|CommandTree &|CommandTree$|TagDict|^bool|std::map|const char', G[g]['u'].types[G[g]['t']][1])}
    # fields that only constructors, swap and assignment write: the identity of an object
    lazyf = {}
    for i, f in fns.items():
        if f.get('ctor') or f.get('dtor') or f.get('n') in ('swap', 'operator='): continue
        for p in E.info[i].W:
            if p[0] == 'this' and len(p) > 1: lazyf.setdefault(f.get('cls'), set()).add(p[1])
    def ident(g, p):
        """p designates the variable, the whole object it points to, or an identity field of it"""
        if len(p) == 1 or '*' not in p[1:] or len(p) == 2: return True
        if len(p) == 3 and p[1] == '*':
            T = re.sub(r'[ *]+$', '', G[g]['u'].types[G[g]['t']][1])
            return not any(p[2] in lazyf.get(B, ()) for B in bases(P, T))
        return False
    # direct guarded (lazy) initialisers
    def lazy(f, fi):
        wr = set(); ok = True
        par = None
        for n in fn_nodes(f):
            if lib.is_assign(n):
                for p in E.den(fi, n['c'][0]):
                    if p[0] in G and len(p) == 1:
                        if par is None: par = lib.parents(f['body'])
                        x = n; guarded = False
                        while id(x) in par:
                            y = par[id(x)]
                            if y['k'] == 'If' and x is not y['c'][0]:
                                if any(z['k'] == 'Ref' and ('g', z.get('q')) in G for z in walk(y['c'][0])): guarded = True
                            x = y
                        if not guarded: ok = False
                        wr.add(p[0])
        return wr if ok else set()
    LZ = {i: lazy(f, E.info[i]) for i, f in fns.items() if f.get('body')}
    # non-lazy writes, per function
    SW = {i: frozenset() for i in fns}
    def node_writes(fi, n):
        out = set()
        if n['k'] in ('Call', 'Con') and n.get('fn'):
            ts = [t for t in P.targets(n) if t in SW]
            if ts and not n.get('q', '').startswith('std::'):
                for t in ts: out |= E.subst(fi, n, SW[t])
                return out
        if n['k'] == 'Delete': return out
        return {p for kd, p in E.effects(fi, n) if kd in ('w', 'g')}
    def relevant(p):
        r = p[0]
        if r == 'this' : return True
        if isinstance(r, str): return True
        return r in G and r not in skip and ident(r, p)
    work = list(fns); inq = set(work); cnt = {}
    while work:
        i = work.pop(); inq.discard(i); cnt[i] = cnt.get(i, 0) + 1
        if cnt[i] > 10: continue
        f = fns[i]; fi = E.info[i]
        isv = ['&' not in fi.u.types[p['t']][1][-2:] for p in f['params']]
        S = set()
        for n in fn_nodes(f):
            if n['k'] not in ('Bin', 'Un', 'Call', 'Con'): continue
            for p in node_writes(fi, n):
                r = p[0]
                if isinstance(r, tuple) and r[0] == 'l': continue
                if isinstance(r, str) and r != 'this' and isv[int(r[1:])] and '*' not in p: continue
                if r in LZ.get(i, ()): continue
                if relevant(p): S.add(p)
        S = {p for p in S if not any(isinstance(p[0], str) and len(p) > 4 for _ in (0,))}
        if not S <= SW[i]:
            SW[i] = SW[i] | S
            for c in P.callers.get(i, ()):
                if c in fns and c not in inq: inq.add(c); work.append(c)
    def keep(p):
        r = p[0]
        if isinstance(r, tuple): return r in G and r not in skip and ident(r, p)
        return True
    A = taw.TAW(P, E, keep=keep, relevant=lambda t: t not in ('std::interrupt',), writes=lambda fi, n: node_writes(fi, n))
    st = 0
    for i in sorted(ctx.commands):
        f = fns.get(i)
        if f is None or '/test/' in f['u'].loc(f): continue
        if any(isinstance(p[0], tuple) and p[0] not in stack for p in SW[i]): st += 1
        fi = E.info[i]
        for tr in (n for n in fn_nodes(f) if n['k'] == 'Try'):
            for h in tr['c'][1:]:
                gh = cfg.CFG(None, {'k': 'Block', 'c': list(h['c'])})
                if cfg.solve(gh, 0, lambda k, x, s: s, lambda a, b: a)[gh.exit] is None: continue   # passes the failure on
                ctx.count('handlers_ending_a_command')
                own = set()
                for c in h['c']:
                    for n in walk(c) if c else ():
                        if n['k'] in ('Bin', 'Un', 'Call', 'Con'):
                            own |= {(p, id(n)) for p in node_writes(fi, n) if isinstance(p[0], tuple) and p[0] in G and p[0] not in skip}
                            for p in node_writes(fi, n):
                                if isinstance(p[0], tuple) and p[0] in stack:
                                    ctx.violation('state:%s:handler' % nm(f), loc(f, n), '%s leaves modes because it failed, losing what was chosen in them' % nm(f))
                rest = {p for p, x in own}
                for p, w in sorted(A.hin.get((i, id(h)), {}).items(), key=str):
                    if not isinstance(p[0], tuple) or p[0] in stack or p in rest: continue
                    v = p[0][1].replace('(anonymous namespace)::', '')
                    what = v if len(p) == 1 else 'the object of ' + v
                    ctx.violation('state:%s:%s' % (nm(f), v), loc(f, w[0]), '%s changes %s, and may fail (%s) afterwards, leaving the session changed by a command that failed' % (nm(f), what, w[2]))
        for p in sorted(A.T.get(i, ()), key=str):
            if not isinstance(p[0], tuple) or p[0] in stack: continue
            n, t, ty = A.why.get((i, p), (None, None, ''))
            v = p[0][1].replace('(anonymous namespace)::', '')
            what = v if len(p) == 1 else 'the object of ' + v
            ctx.violation('state:%s:%s' % (nm(f), v), loc(f, n) if n else loc(f), '%s changes %s, and may fail (%s) afterwards, leaving the session changed by a command that failed' % (nm(f), what, ty))
    ctx.count('state_changing_commands', st); ctx.floor('state_changing_commands', 3)
    # a mode is pushed only after it was entered successfully
    ns = 0
    for i, f in fns.items():
        if not any(n['k'] == 'Call' and n.get('n') in ('push_back', 'emplace_back') and any(p[0] in stack for kd, p in E.effects(E.info[i], n)) for n in fn_nodes(f)): continue
        ns += 1
        g = cfg.CFG(f)
        def tr(k, n, s):
            if n['k'] == 'Call' and any(p[0] in stack for kd, p in E.effects(E.info[i], n) if kd == 'g'): return True
            return s
        ins = cfg.solve(g, False, tr, lambda a, b: a or b)
        for k, n in enumerate(g.nodes):
            if ins[k] and (indirect(P, n) or n['k'] == 'Call' and n.get('fn') in fns and any(indirect(P, m) for m in fn_nodes(fns[n['fn']]))):
                ctx.violation('push:' + nm(f), loc(f, n), '%s makes the mode active before its entry function has succeeded' % nm(f))
    ctx.count('mode_activations', ns); ctx.floor('mode_activations', 1)
    ctx._sw = SW

# ---------------------------------------------------------------- pointers left dangling by a failure
def dangling(ctx, P, E, fns):
    for i, f in fns.items():
        if f.get('dtor'): continue
        dels = [n for n in fn_nodes(f) if n['k'] == 'Delete']
        if not dels: continue
        fi = E.info[i]
        g, guards, hid, ret = graph(P, E, fi)
        def keyp(S): return frozenset(p for p in S if not (isinstance(p[0], tuple) and p[0][0] == 'l'))
        def tr(k, n, s):
            if n['k'] == 'Delete' and n.get('c'):
                return s | keyp(E.den(fi, unwrap(n['c'][0])))
            if lib.is_assign(n):
                d = E.den(fi, n['c'][0])
                return frozenset(p for p in s if p not in d)
            return s
        ins = cfg.solve(g, frozenset(), tr, lambda a, b: a | b)
        for k, n in enumerate(g.nodes):
            if not ins[k]: continue
            ts = set()
            if n['k'] in ('Call', 'Con') and n.get('fn'):
                for t in P.targets(n): ts |= {x for x in P.throws.get(t, ()) if x != 'std::interrupt'}
            elif n['k'] == 'Throw': ts = {'an exception'}
            if ts:
                p = sorted(ins[k], key=str)[0]
                name = (p[0][1] if isinstance(p[0], tuple) else p[0]).replace('(anonymous namespace)::', '')
                ctx.violation('dangling:%s:%s' % (nm(f), '.'.join([name] + list(p[1:]))), loc(f, n),
                              '%s: %s was deleted and still designates the deleted object if %s is thrown here' % (nm(f), '.'.join([name] + list(p[1:])), sorted(ts)[0]))
        ctx.count('functions_deleting', 1)
    ctx.floor('functions_deleting', 5)

def graph(P, E, fi):
    return cfg.CFG(fi.f), None, None, None

# ---------------------------------------------------------------- tables filled column by column
def tables(ctx, P, E, fns):
    # 1. removal of a hole only after the column was filled
    n1 = 0
    for i, f in fns.items():
        if f.get('cls') != 'atlas::kl::KL_table' or f.get('n') in MARK_EXEMPT or f.get('ctor'): continue
        fi = E.info[i]
        marks = {id(n) for n in fn_nodes(f) if n['k'] == 'Call' and n.get('n') in ('remove', 'erase', 'reset') and any(p[:2] == ('this', 'd_holes') for kd, p in E.effects(fi, n) if kd in 'wg')}
        if not marks: continue
        g = cfg.CFG(f)
        def fills(n):
            if n['k'] == 'Call' and id(n) not in marks or n['k'] == 'Bin':
                return any(p[:2] == ('this', 'd_KL') for kd, p in E.effects(fi, n) if kd in 'wg')
            return False
        def tr(k, n, s):
            if n['k'] in ('#loop',): return s and 'x' if s == 'x' else False
            if id(n) in marks: return False
            if fills(n): return True
            return s
        ins = cfg.solve(g, False, tr, lambda a, b: a and b)
        # inner loops that fill: a loop none of whose paths returns to a mark without filling resets too much
        inner = filling_loops(f, fills, marks)
        if inner:
            def tr2(k, n, s):
                if n['k'] == '#loop' and n.get('l') in inner: return s
                return tr(k, n, s)
            ins = cfg.solve(g, False, tr2, lambda a, b: a and b)
        for k, n in enumerate(g.nodes):
            if id(n) in marks and ins[k] is not None:
                n1 += 1
                if not ins[k]:
                    ctx.violation('mark:' + nm(f), loc(f, n), '%s marks a column as computed on a path on which it has not been computed; a failure in between leaves it empty but marked' % nm(f))
    ctx.count('completion_marks', n1); ctx.floor('completion_marks', 3)
    # 2. a partially filled column is removed and the failure passed on
    P2 = ('atlas::ext_kl::KL_table::fill_column',)
    n2 = 0
    for i, f in fns.items():
        if f.get('cls') != 'atlas::ext_kl::KL_table': continue
        fi = E.info[i]
        own = strip(f['q'])
        calls = [n for n in fn_nodes(f) if n['k'] == 'Call' and strip(n.get('q', '')) in P2]
        if not calls: continue
        par = lib.parents(f['body'])
        for n in calls:
            n2 += 1
            x = n; ok = False; why = 'is not protected'
            while id(x) in par:
                y = par[id(x)]
                if y['k'] == 'Try' and y['c'][0] is x:
                    for h in y['c'][1:]:
                        if P.catch_type(f['u'], h) != '...': continue
                        cl = any(m['k'] == 'Call' and m.get('n') in ('clear', 'resize', 'assign', 'swap', 'operator=') and any(p[:2] == ('this', 'column') for kd, p in E.effects(fi, m) if kd in 'wg') for m in walk(h))
                        if cl: ok = True
                        else: why = 'keeps the partial column'
                x = y
            if not ok:
                ctx.violation('partial:' + own, loc(f, n), '%s: a failure while a column is being filled %s; the column would later be taken to be complete' % (own, why))
    ctx.count('protected_fills', n2); ctx.floor('protected_fills', 1)

def filling_loops(f, fills, marks):
    out = set()
    for n in fn_nodes(f):
        if n['k'] in ('For', 'While', 'Range', 'Do'):
            ns = list(walk(n))
            if not any(id(m) in marks for m in ns): out.add(n.get('l'))
    return out
