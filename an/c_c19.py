"""C19: checking builds and optimised builds compute the same."""
import collections
from src import walk, children, fn_nodes
from prog import strip
import lib
from lib import lib_fns, nm, loc, unwrap

EXPLANATION = ('Every function of the library and of Fokko is parsed twice, with assertions and debugging code compiled in and with them compiled out; everything present in only one of the two '
               '(assertion conditions, conditionally compiled statements) is examined for effects, through all callees.')
RULE = ('Code present in only one of the two builds writes nothing but variables that exist only in that build, throws nothing, and does not leave the function early; '
        'and no function exists in both builds with different bodies otherwise.')
ASSUMPTIONS = ['a failing assertion is a defect already there: only the case that assertions hold is considered',
               'const operations do not change what can be observed (C10 examines those that change hidden state)']
EFFECT = ('Bin', 'Un', 'Call', 'Con', 'Return', 'Break', 'Continue', 'Goto', 'Throw', 'Var', 'Delete', 'New', 'If', 'While', 'For', 'Do', 'Range', 'Lit', 'Ref', 'Mem')

def sig(f, n, line):
    return (line, n['k'], n.get('op') or '', strip(n.get('q', '')) or n.get('n') or '', str(n.get('v', '')))

def nodes(f):
    """(node, signature) in source order; a node without position has that of its parent"""
    st = [(f['body'], '')] + [(i['e'], '') for i in f.get('inits', ()) if i.get('e')]
    while st:
        n, line = st.pop()
        if 'l' in n: line = f['u'].loc(n)
        if n['k'] in EFFECT: yield n, sig(f, n, line)
        for c in reversed(list(children(n))): st.append((c, line))

def written(E, f, X):
    """locations written by the constructs of X, locals named rather than numbered"""
    fi = E.info.get(f['id']); X = collections.Counter(X); out = set()
    if fi is None: return out
    for n, s in nodes(f):
        if X[s] > 0:
            X[s] -= 1
            if n['k'] in ('Bin', 'Un', 'Call'):
                for kind, p in E.effects(fi, n):
                    if kind != 'r': out.add(p[:2 if p[0] == 'this' else 1])
    return out

def check(ctx):
    D = ctx.prog(ndebug=False); N = ctx.prog()
    E = lib.lib_effects(D); EN = lib.lib_effects(N)
    for i, f in lib_fns(D):
        g = N.fns.get(i)
        if g is None: continue
        ctx.count('functions')
        a = collections.Counter(s for n, s in nodes(f)); b = collections.Counter(s for n, s in nodes(g))
        if a == b or not N.callers.get(i) and D.callers.get(i): continue     # called for checking only
        ctx.count('functions_that_differ')
        both = written(E, f, a - b) & written(EN, g, b - a)
        one(ctx, D, f, a - b, E, 'with checks on', both)
        one(ctx, N, g, b - a, EN, 'with checks off', both)
    for i, f in lib_fns(D):
        for n in fn_nodes(f):
            if n['k'] == 'Call' and n.get('n') == '__assert_fail': ctx.count('assertions')
    ctx.floor('functions', 2000); ctx.floor('assertions', 300)

def const_op(P, n, E):
    ts = [t for t in P.targets(n) if t in E.info]
    for t in ts:
        f = E.info[t].f
        if not (f.get('const') or f.get('ctor') or not f.get('cls') or f.get('static')): return False
        for p in f['params']:
            ty = f['u'].types[p['t']][1]
            if (ty.endswith('&') or ty.endswith('*')) and not ty.startswith('const '): return False
    return bool(ts)

def order(f):
    """nodes in source order with the loops and declaring position of each"""
    out = []; st = [(f['body'], ())]
    for i in f.get('inits', ()):
        if i.get('e'): st.append((i['e'], ()))
    while st:
        n, L = st.pop()
        out.append((n, L))
        if n['k'] in ('For', 'While', 'Do', 'Range', 'Lambda'): L = L + (id(n),)
        for c in reversed(list(children(n))): st.append((c, L))
    return out

def one(ctx, D, f, X, E, build, both):
    fi = E.info.get(f['id'])
    if fi is None: return
    X = collections.Counter(X)
    extra = []
    for n, s in nodes(f):
        if X[s] > 0: X[s] -= 1; extra.append(n)
    ex = {id(n) for n in extra}
    own = {n['d'] for n in extra if n['k'] == 'Var'}
    inner = set()
    for n in extra:
        if n['k'] in ('For', 'While', 'Do', 'Range', 'Switch', 'Lambda'):
            for m in walk(n): inner.add(id(m))
    ctx.count('constructs_in_one_build_only', len(extra))
    seq = None
    for n in extra:
        k = n['k']
        if k in ('Return', 'Break', 'Continue', 'Goto') and id(n) not in inner:
            ctx.violation('leaves:%s' % nm(f), loc(f, n), '%s leaves by a statement that exists only %s' % (nm(f), build)); continue
        if k == 'Throw' and build.endswith('off'):
            ctx.violation('leaves:%s' % nm(f), loc(f, n), '%s throws only %s' % (nm(f), build)); continue
        if k not in ('Bin', 'Un', 'Call', 'Con', 'Delete') or k == 'Call' and n.get('n') == '__assert_fail': continue
        if k == 'Con' and (n.get('cp') or n.get('mv')): continue
        ctx.count('obligations')
        if k in ('Call', 'Con') and const_op(D, n, E): continue
        for kind, p in E.effects(fi, n):
            if kind == 'r' or p[:2 if p[0] == 'this' else 1] in both: continue
            r = p[0]
            if isinstance(r, tuple) and r[0] == 'g' and r[1].startswith('std::c'): continue
            if isinstance(r, tuple) and r[0] == 'l':
                if r[1] in own: continue
                if len(p) == 1:     # a local of both builds: harmless when never looked at again
                    if seq is None: seq = order(f)
                    pos = next((j for j, (m, L) in enumerate(seq) if m is n), 0)
                    decl = next((L for m, L in seq if m['k'] == 'Var' and m.get('d') == r[1]), ())
                    lp = [l for l in seq[pos][1] if l not in decl]
                    other = set()      # alternatives not taken when the write is reached
                    for m, L in seq:
                        if m['k'] == 'If' and len(m['c']) > 2 and m['c'][1] is not None and m['c'][2] is not None and any(z is n for z in walk(m['c'][1])):
                            other |= {id(z) for z in walk(m['c'][2])}
                    def later(j, m, L): return j > pos or any(l in lp for l in L)
                    if not any(m['k'] == 'Ref' and m.get('d') == r[1] and id(m) not in ex and (lp or id(m) not in other) and later(j, m, L) for j, (m, L) in enumerate(seq)): continue
            ctx.violation('effect:%s:%s' % (nm(f), '.'.join(str(x) for x in p if not isinstance(x, tuple))), loc(f, n), '%s changes something by code that exists only %s: %s' % (nm(f), build, n.get('n') or n.get('op') or k))
            break
