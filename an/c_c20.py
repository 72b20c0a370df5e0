"""C20: no operation ignores what it is given or discards what it computes."""
import re, collections
from src import walk, children, fn_nodes
from prog import strip, bare
import lib
from lib import lib_fns, nm, loc, unwrap
from effects import isref, isptr

EXPLANATION = ('For every function of the library and of Fokko the values that can influence its result, its effects, or the path it takes to them are found by following data and control dependence '
               'backwards (through local variables, references and iterators, using the computed effects of all callees).')
RULE = ('Every named parameter influences the result or an effect of the function; so does every local variable that is given a computed value; '
        'and no call is made whose only product, its result, is thrown away.')
ASSUMPTIONS = ['a parameter that one of several overriding functions ignores is part of a common interface', 'a value used only in an assertion counts as used']
# arguments an operation takes for uniformity with its siblings, or for a use that is disabled in the source
NOT_NEEDED = {('atlas::abelian::generators', 'A'), ('atlas::tits::EnrichedTitsGroup::backtrack_seed', 'rf'), ('atlas::blocks::common_block::swallow', 'ext_KL_pol_hash'),
              ('atlas::ext_block::is_descent', 'ctxt'), ('atlas::repr::print_stdrep_mod', 'rc'), ('atlas::containers::simple_list::splice', 'other')}
# arguments and values that exist to be checked
CHECKED_ONLY = {('atlas::blocks::common_block::swallow', 'bm'), ('atlas::ext_block::ext_block::swallow', 'simple_pi'), ('atlas::ext_block::validate', 'E'),
                ('atlas::ext_kl::KL_table::check_polys', 'limit'), ('atlas::standardrepk::KhatContext::equate', 'n'), ('atlas::standardrepk::qKhatContext::equate', 'n'),
                ('atlas::polynomials::Safe_Poly::safe_quotient_by_1_plus_q', 'delta')}
LEFTOVER = {'twisted_KL_column_at_s', 'matrix_info'}      # contain variables left over from an earlier version of the computation

WRITES = ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')
LOOPS = ('For', 'While', 'Do', 'Range', 'If', 'Switch', 'Cond', 'Try', 'Case')

class Slice:
    def __init__(s, P, E, f, asserting):
        s.asserting = asserting
        s.P = P; s.E = E; s.f = f; s.fi = E.info[f['id']]
        s.live = set()
        s.outs = {p[0] for X in (s.fi.W, s.fi.G, s.fi.rl, s.fi.rp) for p in X}
        s.run()
    def refs(s, n):
        return {m['d'] for m in walk(n) if m['k'] == 'Ref' and m.get('dk') in ('local', 'parm', 'binding') and 'd' in m}
    def run(s):
        f, fi = s.f, s.fi
        dep = collections.defaultdict(set)     # local -> locals its value depends on
        roots = set()
        # every construct with the conditions it is subject to
        st = [(i['e'], frozenset()) for i in f.get('inits', ()) if i.get('e')] + [(f['body'], frozenset())]
        for i in f.get('inits', ()):
            if i.get('e'): roots |= s.refs(i['e'])
        def act(n, C, targets, uses):
            """n gives a value to targets (None: something outside)"""
            for t in targets:
                if t is None: roots.update(uses); roots.update(C)
                else: dep[t].update(uses); dep[t].update(C)
        stmt = s.stmt = set(); stmt0 = set()
        for m in fn_nodes(f):
            cs = m['c'] if m['k'] in ('Compound', 'Block', 'Seq') else m['c'][1:] if m['k'] == 'If' else m['c'][-1:] if m['k'] in ('For', 'While', 'Range') else m['c'][:1] if m['k'] == 'Do' else ()
            for c in cs:
                if c is not None: stmt0.add(id(c))
                c = unwrap(c)
                if c is not None: stmt.add(id(c))
        while st:
            n, C = st.pop()
            k = n['k']
            if k == 'Lambda':
                roots |= s.refs(n)
                continue
            if k == 'Return':
                act(n, C, [None], s.refs(n))
            elif k in ('Throw', 'Break', 'Continue', 'Goto', 'Delete', 'Case', 'Default', 'New'): act(n, C, [None], s.refs(n))
            elif k == 'Cast' and fi.u.types[n['t']][1] == 'void' and id(n) in stmt0: act(n, C, [None], s.refs(n))
            elif k == 'Var':
                if n.get('i') is not None:
                    u = s.refs(n['i']); act(n, C, [n['d']], u)
                    ty = fi.u.types[n['t']][1]
                    if n.get('static') or s.guard(ty): act(n, C, [None], u | {n['d']})
                for b in n.get('binds', ()) : dep[b['d']].update(s.refs(n)); dep[b['d']].add(n['d'])
            elif k == 'Range':
                act(n, C, [n['var']['d']], s.refs(n['c'][0]))
                for b in n['var'].get('binds', ()): dep[b['d']].add(n['var']['d'])
            elif k in ('Bin', 'Un', 'Call', 'Con'):
                T = set(); out = False
                if k in ('Call', 'Con') and n.get('fn') is None: out = True
                elif k in ('Call', 'Con') and s.outside(n): out = True
                for kind, p in s.E.effects(fi, n):
                    if kind == 'r': continue
                    r = p[0]
                    if isinstance(r, tuple) and r[0] == 'l':
                        T.add(r[1])
                        if '*' in p[1:] and not s.owner(r[1]) or fi.vt.get(r[1]) == 'ref' or s.channel(r[1]): out = True
                    elif isinstance(r, str) and r != 'this':
                        j = int(r[1:]); q = f['params'][j]
                        if '&' in fi.u.types[q['t']][1][-2:] or '*' in p[1:]: out = True
                        else: T.add(q['d'])
                    else: out = True
                u = s.refs(n)
                if k in ('Call', 'Con') and any(s.P.may_throw_types(t) for t in s.P.targets(n) if t in s.E.info): out = True
                if id(n) in stmt and k == 'Call' and any(t in s.asserting and s.result_minor(t) for t in s.P.targets(n)): out = True     # called to check something
                if k == 'Bin' and n['op'] == '=' and unwrap(n['c'][0])['k'] == 'Ref' and not out: u = s.refs(n['c'][1])
                if out: act(n, C, [None], u)
                # a variable that designates the place written keeps the writing alive
                for t in T: act(n, C, [t], u)
                for x in u:
                    if fi.vt.get(x) == 'ref' or x in fi.env:
                        for q in T: dep[x].update(u - {x}); break
            D = C
            if k in ('If', 'Switch', 'While', 'Do', 'For', 'Cond'):
                cn = s.cond(n)
                D = C | frozenset(s.refs(cn)) if cn is not None else C
                # a loop or branch whose condition decides whether an exception or end is reached
            elif k == 'Range': D = C | frozenset(s.refs(n['c'][0]))
            elif k == 'Bin' and n['op'] in ('&&', '||'): D = C | frozenset(s.refs(n['c'][0]))
            for c in children(n): st.append((c, D))
        w = list(roots); L = s.live = set(roots)
        while w:
            for y in dep.get(w.pop(), ()):
                if y not in L: L.add(y); w.append(y)
        s.dep = dep
    def cond(s, n):
        k = n['k']
        if k == 'Do': return n['c'][-1]
        if k == 'For':
            for c in n['c']:
                pass
            return n['c'][1] if len(n['c']) > 2 else None
        return n['c'][0] if n.get('c') else None
    def decl(s, d):
        if not hasattr(s, 'ty'):
            s.ty = {m['d']: s.fi.u.types[m['t']][1] for m in fn_nodes(s.f) if m['k'] == 'Var'}
            for m in fn_nodes(s.f):
                if m['k'] == 'Range': s.ty[m['var']['d']] = s.fi.u.types[m['var']['t']][1]
        return s.ty.get(d, '')
    def owner(s, d): return bool(re.match(r'(const )?(std::unique_ptr|std::shared_ptr|(atlas::)?containers::(simple_list|sl_list|queue|stack|mirrored_simple_list|mirrored_sl_list)|std::vector)<', s.decl(d))) and s.decl(d)[-1] not in '*&'
    def channel(s, d): return bool(re.search(r'OutputFile|InputFile|fstream|iterator|\(lambda', s.decl(d)))
    def guard(s, ty):
        b = bare(ty)
        return 'lock' in b or 'Poly_hash_export' in b
    def result_minor(s, t): return minor(s.P, t)
    def outside(s, n):
        """calls something of unknown effect"""
        if any(t in s.E.info for t in s.P.targets(n)): 
            return any(not s.E.info[t].f.get('ctor') and s.E.info[t].f.get('noreturn') for t in s.P.targets(n) if t in s.E.info)
        q = n.get('q', '')
        if q.startswith('std::') or q.startswith('__gnu') or n['k'] == 'Con': return n.get('n') in ('exit', 'abort', 'terminate')
        return not n.get('op')

def minor(P, t):
    '''what t returns is not the purpose of calling it'''
    f = P.fns.get(t)
    return f is None or 'ret' not in f or f['u'].types[f['ret']][1] in ('void', 'bool')

def id_(f): return f['q']

def slices(ctx, P, E, A):
    for i, f in lib_fns(P): yield i, f, Slice(P, E, f, A)

def optimised(ctx):
    """with checks left out: the calls made, the variables computed; and the arguments without influence"""
    P = ctx.prog(); E = lib.lib_effects(P); P.compute_throws()
    opt = set(); early = set()
    for f in P.fns.values():
        for n in fn_nodes(f):
            if n['k'] in ('Call', 'Con'): opt.add((nm(f), n.get('q')))
            elif n['k'] == 'Var': opt.add((nm(f), n.get('n')))
            elif n['k'] == 'Range': opt.add((nm(f), n['var'].get('n')))
    for i, f, S in slices(ctx, P, E, set()):
        for j, p in enumerate(f['params']):
            if p['n'] and p['d'] not in S.live and 'p%d' % j not in S.outs: early.add((id_(f), p['n']))
    return opt, early

def check(ctx):
    P = ctx.prog(ndebug=False); E = lib.lib_effects(P)
    opt, early = optimised(ctx)
    A = P.closure({i for i, f in P.fns.items() if any(n['k'] == 'Call' and n.get('n') == '__assert_fail' for n in fn_nodes(f))}, P.callers)
    P.compute_throws()
    for i, f in lib_fns(P):
        ctx.count('functions')
        S = Slice(P, E, f, A)
        for n in fn_nodes(f):
            if id(n) not in S.stmt or n['k'] not in ('Call', 'Con', 'Bin', 'Un'): continue
            ctx.count('statements')
            if n['k'] in ('Bin', 'Un'):
                if not any(kd != 'r' for kd, p in E.effects(S.fi, n)) and n['op'] not in (',', '&&', '||') and not n['op'].endswith('=') and n['op'] not in ('++', '--'):
                    ctx.violation('discards:%s:%s' % (nm(f), n['op']), loc(f, n), '%s computes a value and throws it away' % nm(f))
                continue
            ts = [t for t in P.targets(n) if t in E.info]
            if not ts or any(t in A and minor(P, t) or P.may_throw_types(t) for t in ts) or (nm(f), n.get('q')) not in opt: continue
            if any(x for t in ts for x in (E.info[t].W, E.info[t].G)): continue
            if any(m['k'] == 'Call' and m.get('fn') is None or m['k'] in ('Throw', 'Delete') for t in ts for m in fn_nodes(P.fns[t])): continue
            if all(P.fns[t]['u'].types[P.fns[t]['ret']][1] == 'void' for t in ts if 'ret' in P.fns[t]):
                if all(lib.is_empty(P.fns[t]) for t in ts): continue
            ctx.violation('discards:%s:%s' % (nm(f), strip(n.get('q', ''))), loc(f, n), '%s calls %s, which does nothing but compute a result, and throws the result away' % (nm(f), strip(n.get('q', ''))))
        iface = f.get('ovr') or f.get('virt') or i in P.over
        for p in f['params']:
            if not p['n']: continue
            ctx.count('parameters')
            if iface: continue
            why = ''
            if p['d'] in S.live or 'p%d' % f['params'].index(p) in S.outs:
                if (id_(f), p['n']) not in early or (nm(f), p['n']) in CHECKED_ONLY: continue
                why = ' once its checks are left out'
            ty = f['u'].types[p['t']][1]
            if 'Tag' in ty or (nm(f), p['n']) in NOT_NEEDED: continue
            ctx.violation('ignored:%s:%s' % (nm(f), p['n']), loc(f), '%s ignores its argument %s: neither its result nor any effect depends on it%s' % (nm(f), p['n'], why))
        given = {unwrap(n['c'][0]).get('d') for n in fn_nodes(f) if n['k'] in ('Bin', 'Call') and n.get('op') in WRITES and n.get('c') and unwrap(n['c'][0])['k'] == 'Ref'
                 and any(m['k'] in ('Call', 'Ref', 'Mem') for c in n['c'][1:] for m in walk(c))}
        vs = [(n, n.get('i')) for n in fn_nodes(f) if n['k'] == 'Var'] + [(dict(n['var'], l=n.get('l')), None) for n in fn_nodes(f) if n['k'] == 'Range']
        for n, init in vs:
            if init is None and n['d'] not in given: continue
            ctx.count('variables')
            if n['d'] in S.live or not n.get('n') or f.get('n') in LEFTOVER: continue
            if (nm(f), n['n']) not in opt: continue                               # exists for checks only
            if n['d'] not in given and not any(m['k'] in ('Call', 'Ref', 'Mem') for m in walk(init)): continue      # a constant
            ctx.violation('unused:%s:%s' % (nm(f), n['n']), loc(f, n), '%s computes %s and never uses it' % (nm(f), n['n']))
    ctx.floor('functions', 2000)
