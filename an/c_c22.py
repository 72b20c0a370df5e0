"""C22: every loop makes progress towards one of its exits."""
import re
from src import walk, children, fn_nodes
from cfg import CFG
import lib
from lib import lib_fns, nm, loc, unwrap
from effects import isptr, GROW

EXPLANATION = ('For every loop of the library and of Fokko the exits are listed with the conditions they are subject to; the locations these conditions read are followed back, by data and control dependence '
               'within the loop and with the computed effects of all callees, to the locations whose new values depend on their old ones.')
RULE = ('Every path through the loop from its head back to its head changes one of the locations on which some exit depends; a counter compared with a bound is moved towards the bound only; '
        'a function that calls itself does so with a changed argument, or after changing what it works on.')
ASSUMPTIONS = ['loops inside the loop are run at least once', 'a change of a location an exit depends on is progress (termination itself is not proved)', 'reading from a stream changes the stream']
# every element put on the list is smaller than the one it comes from
DECREASING = {'atlas::kgb::KGP::reduce', 'atlas::repr::Rep_context::finals_for'}
CMP = ('<', '>', '<=', '>=', '!=', '==')

def n0(m): return m.get('n')

def overlap(a, b):
    m = min(len(a), len(b))
    return a[:m] == b[:m]

class Loop:
    def __init__(s, P, E, f, L, par):
        s.P = P; s.E = E; s.f = f; s.fi = E.info[f['id']]; s.L = L; s.par = par
        k = L['k']; c = L['c']; s.lv = {}
        s.parts = [x for x in (c[1:4] if k == 'For' else c) if x is not None]
        s.body = c[3] if k == 'For' else c[0] if k == 'Do' else c[1]
        s.cond = c[1] if k == 'For' else c[1] if k == 'Do' else c[0]
        s.nodes = [m for x in s.parts for m in walk(x)]
        s.ids = {id(m) for m in s.nodes}
        if L.get('cv'):
            for m in walk(L['cv']): s.nodes.append(m); s.ids.add(id(m))
    def reads(s, n):
        """locations an expression reads"""
        out = set(); st = [n]; fi = s.fi; E = s.E
        while st:
            n = st.pop()
            if n is None: continue
            k = n['k']
            if k == 'Lambda':
                for m in walk(n):
                    if m['k'] == 'Ref' and m.get('dk') in ('local', 'parm', 'binding'): out |= E.den(fi, m) or ({(('l', m['d']),)} if 'd' in m else set())
                continue
            if k == 'Ref':
                if n.get('dk') in ('binding', 'local') and 'd' in n: out.add((('l', n['d']),))
                out |= E.den(fi, n)
                continue
            if k == 'This': out.add(('this',)); continue
            if k == 'Mem':
                S = E.den(fi, n); out |= S
                b = unwrap(n['c'][0]) if n.get('c') else None
                if b is not None and b['k'] != 'This' : st.append(b) if (n.get('arrow') or not S) or b['k'] not in ('Ref', 'Mem') else None
                continue
            if k in ('Call', 'Con', 'Sub', 'Un'):
                if k in ('Call', 'Con'):
                    for kind, p in E.effects(fi, n):
                        if kind == 'r': out.add(p)
                    if any(t in s.P.fns for t in s.P.targets(n)) and not n.get('q', '').startswith('std::'):
                        o, a = E.args(n)
                        for x in n['c']:
                            if x is None: continue
                            y = unwrap(x)
                            if y['k'] in ('This',): continue
                            if x is o and y['k'] in ('Ref', 'Mem') and not n.get('arrow'):
                                continue
                            st.append(x)
                        continue
                    out |= E.call_ret(fi, n)[0]
                else: out |= E.den(fi, n)
            st += [c for c in children(n)]
        return out
    def conds(s, n, direct=False):
        """conditions within the loop that n is subject to"""
        out = []; x = n
        while id(x) in s.par and x is not s.L:
            p = s.par[id(x)]
            if p is s.L: break
            k = p['k']; c = p['c'] if 'c' in p else []
            if k in ('If', 'Cond', 'Switch') and c[0] is not x: out.append(c[0])
            elif k == 'For' and c[0] is not x and c[1] is not None: out.append(c[1])
            elif k == 'While' and c[1] is x: out.append(c[0])
            elif k == 'Do' and c[0] is x: out.append(c[1])
            elif k == 'Range': out.append(p['c'][0])
            elif k == 'Bin' and p['op'] in ('&&', '||') and c[1] is x: out.append(c[0])
            if k in ('For', 'While', 'Do', 'Range') and not direct:
                for m in s.leaving(p): out += s.conds(m, True)
            x = p
        return out
    def leaving(s, p):
        if id(p) not in s.lv: s.lv[id(p)] = [m for m in walk(p) if m['k'] in ('Break', 'Continue', 'Return', 'Throw')]
        return s.lv[id(p)]
    def exits(s):
        """conditions of all exits; None stands for an exit without condition"""
        out = []
        if s.cond is not None and not (unwrap(s.cond)['k'] == 'Bool' and unwrap(s.cond).get('v') in (1, True, 'true')): out.append([s.cond])
        for m in s.nodes:
            k = m['k']
            if k in ('Return', 'Throw', 'Goto') or k == 'Call' and m.get('n') in ('exit', 'abort', 'terminate'): out.append(s.conds(m, True))
            elif k == 'Break':
                x = m
                while id(x) in s.par:
                    x = s.par[id(x)]
                    if x['k'] in ('For', 'While', 'Do', 'Range', 'Switch'): break
                if x is s.L: out.append(s.conds(m, True))
        return out
    def analyse(s):
        E, fi = s.E, s.fi
        # writes: node -> (targets, sources)
        wr = []
        for m in s.nodes:
            k = m['k']
            if k == 'Var' and m.get('i') is not None:
                wr.append((m, {(('l', m['d']),)}, s.reads(m['i'])))
                for b in m.get('binds', ()): wr.append((m, {(('l', b['d']),)}, s.reads(m['i'])))
            elif k == 'Range':
                wr.append((m, {(('l', m['var']['d']),)} | {(('l', b['d']),) for b in m['var'].get('binds', ())}, s.reads(m['c'][0])))
            elif k in ('Bin', 'Un', 'Call', 'Con', 'Delete'):
                T = {p for kind, p in E.effects(fi, m) if kind in 'wg'}
                if k == 'Call' and m.get('fn') is None:
                    for c in m['c']:
                        if c is not None: T |= E.den(fi, c)
                if k == 'Call' and n0(m) in GROW:      # what an iterator designates is changed by structural operations at it
                    for c in m['c'][1:]:
                        x = unwrap(c)
                        while x is not None and x['k'] == 'Con' and len(x['c']) == 1: x = unwrap(x['c'][0])
                        if x is not None and x['k'] == 'Ref' and x.get('dk') == 'local' and 'iterator' in fi.u.types[x['t']][1]: T.add((('l', x['d']),))
                if not T: continue
                src = set()
                if k == 'Bin' and m['op'] == '=': src |= s.reads(m['c'][1])
                elif k == 'Call' and m.get('op') == '=' and len(m['c']) == 2: src |= s.reads(m['c'][1])
                else:
                    src |= T
                    for c in children(m): src |= s.reads(c)
                    for kind, p in E.effects(fi, m):
                        if kind == 'r': src.add(p)
                wr.append((m, T, src))
        for j, (m, T, src) in enumerate(wr):
            for c in s.conds(m): src = src | s.reads(c)
            wr[j] = (m, T, src)
        n = len(wr)
        feeds = [[j for j in range(n) if any(overlap(t, r) for t in wr[i][1] for r in wr[j][2])] for i in range(n)]   # i -> j
        # writes in a cycle of dependence
        def reach(start):
            seen = set(); st = list(start)
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += feeds[x]
            return seen
        cyc = {i for i in range(n) if i in reach(feeds[i])}
        want = set()
        for ex in s.exits():
            for c in ex: want |= s.reads(c)
        back = [[] for _ in range(n)]
        for i in range(n):
            for j in feeds[i]: back[j].append(i)
        rel = set(); st = [i for i in range(n) if any(overlap(t, r) for t in wr[i][1] for r in want)]
        while st:
            x = st.pop()
            if x in rel: continue
            rel.add(x); st += back[x]
        # what is declared in the loop does not last to the next time round
        inside = {m['d'] for m in s.body_nodes() if m['k'] == 'Var' and not m.get('static')} | {m['var']['d'] for m in s.nodes if m['k'] == 'Range'}
        inside |= {b['d'] for m in s.nodes if m['k'] in ('Var', 'Range') for b in (m['var'] if m['k'] == 'Range' else m).get('binds', ())}
        def lasts(t): return not (isinstance(t[0], tuple) and t[0][0] == 'l' and t[0][1] in inside and '*' not in t)
        prog = {i for i in rel & cyc if wr[i][0]['k'] not in ('Var', 'Range') and any(lasts(t) for t in wr[i][1])}
        # the condition of the loop itself is affected by it
        s.stuck = False
        if s.cond is not None and const(s.cond) is None and var(s.cond) is None:     # `while (flag)' may be left otherwise
            own = s.reads(s.cond); seen = set()
            st = [i for i in range(n) if any(overlap(t, r) for t in wr[i][1] for r in own)]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x); st += back[x]
            s.stuck = not (seen & prog)
        return {id(wr[i][0]) for i in prog}, wr, want
    def body_nodes(s): return walk(s.body)

def progress_paths(s, g, head, prog):
    """is there a path from the head back to the head without progress?"""
    # loops inside, run at least once: progress in them is progress
    inner = set()
    for m in s.nodes:
        if m['k'] in ('For', 'While', 'Range', 'Do') and m is not s.L and any(id(x) in prog for x in walk(m)): inner.add(id(m))
    seen = set(); st = [(j, ()) for j, l in g.succ[head]]
    flags = flagged(s)
    while st:
        i, known = st.pop()
        if (i, known) in seen: continue
        seen.add((i, known))
        if i == head: return True
        n = g.nodes[i]
        if id(n) in prog: continue
        if n['k'] == '#loop' and id(n['L']) in inner: continue
        if n['k'] not in ('#loop', '#switch', '#case', '#label', '#rvar', '#init', '#catch') and id(n) not in s.ids: continue
        if n['k'] == '#loop' and id(n['L']) not in s.ids: continue
        kn = known
        a = flag_set(n)
        if a and a[0] in flags: kn = tuple(sorted({k: v for k, v in known if k != a[0]}.items() | ({(a[0], a[1])} if a[1] is not None else set()), key=str))
        for j, l in g.succ[i]:
            if l and l[0] == 'exc': continue
            if n['k'] == '#switch' and l is None and s.fi.u.types[unwrap(n['sw']['c'][0])['t']][1].replace('const ', '') in s.P.enums: continue
            if l and l[0] == 'c':
                v = flag_test(l[1])
                if v and dict(kn).get(v[0]) is not None and (dict(kn)[v[0]] == v[1]) != l[2]: continue
            st.append((j, kn))
    return False

def var(n):
    """a local variable or a member of the object"""
    n = unwrap(n)
    if n is None: return None
    if n['k'] == 'Ref': return n.get('d')
    if n['k'] == 'Mem' and n.get('c') and unwrap(n['c'][0])['k'] == 'This': return '.' + n['n']
    return None

def flagged(s):
    return {var(m) for c in ([s.cond] if s.cond is not None else []) + [m['c'][0] for m in s.nodes if m['k'] == 'If'] for m in walk(c) if m['k'] in ('Ref', 'Mem')} - {None}

def const(n):
    n = unwrap(n)
    if n is None: return None
    if n['k'] == 'Bool': return 1 if n.get('v') in (1, True, 'true') else 0
    if n['k'] == 'Int': return int(n['v'])
    return None

def flag_set(n):
    if n['k'] == 'Var': return (n['d'], const(n.get('i')) if n.get('i') is not None else None)
    if n['k'] == 'Bin' and n['op'].endswith('=') and n['op'] not in CMP:
        x = var(n['c'][0])
        if x is not None: return (x, const(n['c'][1]) if n['op'] == '=' else None)
    return None

def flag_test(c):
    """(variable, constant it is compared with when the condition holds)"""
    c = unwrap(c)
    if var(c) is not None: return (var(c), 1)
    if c['k'] == 'Bin' and c['op'] == '==' and var(c['c'][0]) is not None and const(c['c'][1]) is not None: return (var(c['c'][0]), const(c['c'][1]))
    return None

def direction(ctx, s, f):
    """a counter compared with a bound moves towards it"""
    c = unwrap(s.cond) if s.cond is not None else None
    st = [c] if c is not None else []; tests = []
    while st:
        x = unwrap(st.pop())
        if x['k'] == 'Bin' and x['op'] == '&&': st += x['c']
        elif x['k'] == 'Bin' and x['op'] in ('<', '>', '<=', '>='): tests.append(x)
    for t in tests:
        for a, b, up in ((t['c'][0], t['c'][1], t['op'][0] == '<'), (t['c'][1], t['c'][0], t['op'][0] == '>')):
            a = unwrap(a)
            if a['k'] == 'Un' and a['op'] in ('++', '--'): a = unwrap(a['c'][0])
            if a['k'] != 'Ref' or 'd' not in a: continue
            d = a['d']; moves = set(); other = False
            B = {m.get('d') for m in walk(b) if m['k'] == 'Ref'}
            for m in s.nodes:
                if m['k'] == 'Un' and m['op'] in ('++', '--') and unwrap(m['c'][0])['k'] == 'Ref':
                    x = unwrap(m['c'][0]).get('d')
                    if x == d: moves.add(m['op'][0])
                    elif x in B: other = True
                elif m['k'] == 'Bin' and m['op'].endswith('=') and m['op'] not in CMP and unwrap(m['c'][0])['k'] == 'Ref':
                    x = unwrap(m['c'][0]).get('d')
                    if x == d: moves.add(m['op'][0] if m['op'] in ('+=', '-=') and nonneg(s, m['c'][1]) else '?')
                    elif x in B: other = True
            if moves and not other:
                ctx.count('counters')
                if moves == {'-' if up else '+'}: yield t, a

def nonneg(s, n):
    n = unwrap(n)
    return n['k'] == 'Int' or 'unsigned' in s.fi.u.types[n['t']][1]

PUSH = ('push', 'push_back', 'push_front', 'emplace_back', 'emplace_front', 'emplace', 'insert', 'append', 'prepend')
POP = ('pop', 'pop_back', 'pop_front', 'erase', 'splice')

def unguarded(ctx, s, wr):
    """additions to a work list under conditions that do not depend on anything else the loop remembers"""
    if s.cond is None: return
    inside = {m['d'] for m in s.nodes if m['k'] == 'Var'} | {m['var']['d'] for m in s.nodes if m['k'] == 'Range'}
    inside |= {b['d'] for m in s.nodes if m['k'] in ('Var', 'Range') for b in (m['var'] if m['k'] == 'Range' else m).get('binds', ())}
    tested = {unwrap(m['c'][0]).get('d') for m in walk(s.cond) if m['k'] == 'Call' and m.get('n') in ('empty', 'size') and m['c'] and unwrap(m['c'][0])['k'] == 'Ref'}
    for d in tested - {None}:
        calls = [m for m in s.nodes if m['k'] == 'Call' and m.get('m') and m['c'] and unwrap(m['c'][0])['k'] == 'Ref' and unwrap(m['c'][0]).get('d') == d]
        pushes = [m for m in calls if m.get('n') in PUSH]
        if not pushes or not any(m.get('n') in POP for m in calls): continue
        ctx.count('work lists')
        rec = {}
        for m, T, src in wr:
            for t in T: rec.setdefault(t, set()).update(src)
        for m in pushes:
            want = set()
            for c in s.conds(m): want |= s.reads(c)
            for x in s.nodes:       # tests after which the rest of the body is skipped
                if x['k'] == 'Continue':
                    for c in s.conds(x): want |= s.reads(c)
            seen = set(want); st = list(want)
            while st:
                x = st.pop()
                for t, src in rec.items():
                    if overlap(t, x) and t[0] in ([('l', q) for q in inside]):
                        for y in src - seen: seen.add(y); st.append(y)
            mem = {t for t in rec if not (isinstance(t[0], tuple) and t[0][0] == 'l' and (t[0][1] in inside or t[0][1] == d))}
            if not any(overlap(t, x) for t in mem for x in seen): yield m

def check(ctx):
    P = ctx.prog(); E = lib.lib_effects(P)
    for i, f in lib_fns(P):
        loops = [m for m in fn_nodes(f) if m['k'] in ('For', 'While', 'Do')]
        recursive(ctx, P, E, f)
        if not loops: continue
        par = {}
        for r in [f['body']] + [x['e'] for x in f.get('inits', ()) if x.get('e')]: par.update(lib.parents(r))
        lam = []
        g = CFG(f)
        graphs = [g] + [CFG(body=m['body'] if 'body' in m else m['c'][-1], inits=False) for m in fn_nodes(f) if m['k'] == 'Lambda' and (m.get('body') or m.get('c'))]
        for L in loops:
            ctx.count('loops'); s = Loop(P, E, f, L, par)
            prog, wr, want = s.analyse()
            hd = [(G, j) for G in graphs for j, n in enumerate(G.nodes) if n.get('L') is L]
            if not hd: ctx.count('loops not in a graph'); continue
            G, head = hd[0]
            ctx.count('writes that are progress', len(prog))
            if s.stuck:
                ctx.violation('condition:%s' % nm(f), loc(f, L), '%s has a loop that never changes what its condition depends on' % nm(f))
            if progress_paths(s, G, head, prog):
                ctx.violation('progress:%s' % nm(f), loc(f, L), '%s has a loop with a path from its head back to its head on which nothing changes that its exits depend on' % nm(f))
            for m in unguarded(ctx, s, wr):
                if lib.exempt(P, f, DECREASING): continue
                ctx.violation('worklist:%s' % nm(f), loc(f, m), '%s puts elements on the list of those still to be treated without testing whether that was done before' % nm(f))
            for t, a in direction(ctx, s, f):
                ctx.violation('direction:%s' % nm(f), loc(f, t), '%s compares %s with a bound, and moves it only away from the bound' % (nm(f), a.get('n')))
    ctx.floor('loops', 1000); ctx.floor('counters', 300)

def recursive(ctx, P, E, f):
    fi = E.info[f['id']]
    changed = None
    for n in fn_nodes(f):
        if n['k'] != 'Call' or f['id'] not in P.targets(n) or n.get('virtual'): continue
        if len(P.targets(n)) != 1: continue
        ctx.count('recursive calls')
        o, a = E.args(n)
        if o is not None:
            x = unwrap(o)
            if not (x['k'] == 'This' or x['k'] == 'Un' and x['op'] == '*' and unwrap(x['c'][0])['k'] == 'This'): continue
        same = len(a) == len(f['params']) and all(unwrap(x) is not None and unwrap(x)['k'] == 'Ref' and unwrap(x).get('d') == q['d'] for x, q in zip(a, f['params']))
        if not same: continue
        roots = {p[0] for X in (fi.W, fi.G) for p in X if p[0] == 'this' or isinstance(p[0], str)}
        asg = {unwrap(m['c'][0]).get('d') for m in fn_nodes(f) if (lib.is_assign(m) or m['k'] == 'Un' and m['op'] in ('++', '--')) and m['c'] and unwrap(m['c'][0]) is not None}
        if not roots and not any(q['d'] in asg for q in f['params']):
            ctx.violation('recursion:' + nm(f), loc(f, n), '%s calls itself with unchanged arguments' % nm(f))
