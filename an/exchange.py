"""Comparison functions under exchange of the two values compared: shapes of what is compared with what."""
from src import walk, fn_nodes
from prog import strip, bare
import lib
from lib import unwrap, nm, loc

COMM = {'+', '*', '&', '|', '^', '&&', '||', '==', '!='}
CMP = {'==', '!=', '<', '>', '<=', '>='}
NUMER = {'num', 'numerator', 'd_num'}; DENOM = {'den', 'denom', 'denominator', 'd_denom'}

def rep(t): return repr(t)

class Shapes:
    def __init__(s, P, f, a, b, neutral=()):
        """a, b: declaration ids of the parameters (a None: *this)"""
        s.P = P; s.f = f; s.a = a; s.b = b
        s.init = {}; many = set(); count = set()
        for n in fn_nodes(f):
            if n['k'] == 'Var' and n.get('i') is not None: s.init.setdefault(n['d'], n['i'])
            elif n['k'] == 'Range': s.init.setdefault(n['var']['d'], ('elt', n['c'][0]))
            elif lib.is_assign(n) and unwrap(n['c'][0])['k'] == 'Ref': many.add(unwrap(n['c'][0]).get('d'))
            elif n['k'] == 'Un' and n['op'] in ('++', '--', 'p++', 'p--', 'post++', 'post--') and unwrap(n['c'][0])['k'] == 'Ref' and 't' in n:
                if not any(w in f['u'].types[unwrap(n['c'][0])['t']][1] for w in ('*', 'iterator', '::')): count.add(unwrap(n['c'][0]).get('d'))
        s.many = many; s.busy = set(); s.count = count; s.neutral = neutral
    def shape(s, n, env=None, depth=0):
        n = unwrap(n)
        if n is None: return ('none',)
        k = n['k']
        if env is None: env = {}
        if k == 'This': return env['this'] if 'this' in env else ('A',)
        if k == 'Ref':
            d = n.get('d')
            if d in env: return env[d]
            if depth: return ('ref', n.get('q', n.get('n')))
            if s.a is not None and d == s.a: return ('A',)
            if d == s.b: return ('B',)
            if d in s.count: return ('var', d)
            if d in s.init and d not in s.busy:
                i = s.init[d]; s.busy.add(d)
                r = ('elt', s.shape(i[1], env)) if isinstance(i, tuple) else s.shape(i, env)
                s.busy.discard(d)
                if d in s.many: r = ('acc', r) if has(r, 'A') or has(r, 'B') else ('var', d)
                if not has(r, 'A') and not has(r, 'B') and n.get('dk') == 'local' and isinstance(i, tuple): return ('var', d)
                return r
            return ('ref', d if n.get('dk') in ('local', 'parm', 'binding') else n.get('q'))
        if k in ('Int', 'Lit', 'Bool', 'Char', 'Float', 'Str'): return ('c', str(n.get('v')))
        if k == 'Mem' and n['n'] in s.neutral: return ('ref', n['n'])
        if k == 'Mem':
            if n.get('c') and n['c'][0] is not None: return ('m', n['n'], s.shape(n['c'][0], env, depth))
            return ('m', n['n'], env.get('this', ('A',)) if s.a is None or 'this' in env else ('?',))
        if k == 'Con':
            a = [c for c in n.get('c', ()) if c is not None and c['k'] != 'DefArg']
            if len(a) == 1: return s.shape(a[0], env, depth)
            return ('con',) + tuple(s.shape(c, env, depth) for c in a)
        if k == 'Cond': return ('if',) + tuple(s.shape(c, env, depth) for c in n['c'])
        if k == 'Call':
            a = [c for c in n['c'] if c is not None and c['k'] != 'DefArg']
            op = n.get('op')
            if op and len(a) == 2: return op2(op, s.shape(a[0], env, depth), s.shape(a[1], env, depth))
            if op: return ('op', op) + tuple(s.shape(c, env, depth) for c in a)
            # accessors that just return something are looked through
            ts = [t for t in s.P.targets(n) if t in s.P.fns]
            if len(ts) == 1 and depth < 4 and n.get('m') and len(a) == 1:
                g = s.P.fns[ts[0]]; st = [x for x in g['body']['c'] if x is not None] if g['body']['k'] in ('Block', 'Compound') else []
                if len(st) == 1 and st[0]['k'] == 'Return' and st[0].get('c') and st[0]['c'][0] is not None and len(list(walk(st[0]))) < 12 and not any(x['k'] in ('Lambda', 'Ref') for x in walk(st[0])):
                    return s.shape(st[0]['c'][0], {'this': s.shape(a[0], env, depth)}, depth + 1)
            return ('call', n.get('n') or '?') + tuple(s.shape(c, env, depth) for c in a)
        if k == 'Bin': return op2(n['op'], s.shape(n['c'][0], env, depth), s.shape(n['c'][1], env, depth))
        if k == 'Un' and n['op'] == '*' and unwrap(n['c'][0])['k'] == 'This': return s.shape(n['c'][0], env, depth)
        if k == 'Un': return ('un', n['op'], s.shape(n['c'][0], env, depth))
        if k == 'Sub': return op2('[]', s.shape(n['c'][0], env, depth), s.shape(n['c'][1], env, depth))
        return ('?', k) + tuple(s.shape(c, env, depth) for c in n.get('c', ()) if isinstance(c, dict))

def op2(op, x, y):
    if op in ('+', '-', '*') and y == ('c', '0') and op != '*': return x
    if op == '+' and x == ('c', '0'): return y
    if op in COMM and rep(y) < rep(x): x, y = y, x
    return ('op', op, x, y)
def has(t, w):
    if t == (w,): return True
    return isinstance(t, tuple) and any(has(x, w) for x in t if isinstance(x, tuple))
def subst(t, m):
    """replaces the roots A and B, restoring the order of commutative operands"""
    if t in m: return m[t]
    if not isinstance(t, tuple): return t
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    if r and r[0] == 'op' and len(r) == 4: return op2(r[1], r[2], r[3])
    return r
SWAP = {('A',): ('B',), ('B',): ('A',)}
ONE = {('B',): ('A',)}
def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): yield from subterms(x)

def comparisons(f):
    for n in fn_nodes(f):
        if n['k'] in ('Bin', 'Call') and n.get('op') in CMP and len([c for c in n['c'] if c is not None]) == 2: yield n

def atoms(S, f):
    """what an equality compares, as terms in one value"""
    R = set()
    for n in comparisons(f):
        x, y = (S.shape(c) for c in n['c'] if c is not None)
        for t in (x, y):
            if has(t, 'A') != has(t, 'B'): R.add(subst(t, ONE))
    for n in fn_nodes(f):
        if n['k'] in ('Bin', 'Call') and n.get('op') == '-' and len(n['c']) == 2:
            x, y = (S.shape(c) for c in n['c'])
            if x != y and subst(x, SWAP) == y:
                for m in fn_nodes(f):      # a linear test on the difference is a test on each
                    if m['k'] == 'Call' and m.get('n') in ('is_zero', 'isZero'):
                        t = S.shape(m['c'][0]); d = S.shape(n)
                        g = replace(t, d, subst(x, ONE))
                        # the numerator of a difference is proportional to the difference of the quotients
                        if any(q == ('m', 'd_num', d) for q in subterms(t)): g = ('op', '/', g, ('m', 'd_denom', subst(x, ONE)))
                        R.add(g)
    return R
def replace(t, d, x):
    if t == d: return x
    if not isinstance(t, tuple): return t
    r = tuple(replace(c, d, x) if isinstance(c, tuple) else c for c in t)
    return op2(r[1], r[2], r[3]) if r and r[0] == 'op' and len(r) == 4 else r

def alternatives(t):
    """the terms that a conditional expression inside a term may stand for"""
    if not isinstance(t, tuple): return [t]
    if t and t[0] == 'if': return alternatives(t[2]) + alternatives(t[3])
    parts = [[x] if not isinstance(x, tuple) else alternatives(x) for x in t]
    R = [()]
    for p in parts: R = [r + (x,) for r in R for x in p]
    R = R[:64]
    return [op2(r[1], r[2], r[3]) if r and r[0] == 'op' and len(r) == 4 else r for r in R]

def check_fn(ctx, P, f, kind, a, b, neutral=()):
    """kind: eq, ne or lt"""
    S = Shapes(P, f, a, b, neutral)
    same = {}        # parts required to be equal by a comparison of this function: which value they are taken from does not matter elsewhere
    if kind != 'lt':
        for n in comparisons(f):
            x, y = (S.shape(c) for c in n['c'] if c is not None)
            if subst(x, SWAP) == y and has(x, 'A') and n['op'] in ('==', '!='):
                same[x] = same[y] = ('same', rep(subst(x, ONE)))
    for n in comparisons(f):
        cs = [c for c in n['c'] if c is not None]
        x, y = S.shape(cs[0]), S.shape(cs[1])
        if not (has(x, 'A') or has(x, 'B')) or not (has(y, 'A') or has(y, 'B')): continue
        if has(x, 'A') and not has(x, 'B') and not has(y, 'B') or has(x, 'B') and not has(x, 'A') and not has(y, 'A'): continue    # of one value only
        if has(x, 'acc') or '?' in rep(x) + rep(y) or "'acc'" in rep(x) + rep(y): continue
        ctx.count('comparisons_of_parts')
        if kind != 'lt' and n['op'] not in ('==', '!='):
            ctx.violation('%s:asym' % nm(f), loc(f, n), '%s decides (in)equality by %s between parts of the two values, which changes when they are exchanged' % (nm(f), n['op']))
        if subst(x, SWAP) != y and subst(subst(x, same), SWAP) != subst(y, same):
            ctx.violation('%s:parts' % nm(f), loc(f, n), '%s compares parts of the two values that do not correspond: exchanging the values does not exchange the two sides of the comparison' % nm(f))
        for t in list(subterms(x)) + list(subterms(y)):
            if t and t[0] == 'op' and t[1] == '*' and len(t) == 4:
                p = [(q[1], q[2]) for q in t[2:] if len(q) == 3 and q[0] in ('m', 'call')]
                if len(p) == 2 and p[0][1] == p[1][1] and (p[0][0] in NUMER and p[1][0] in DENOM or p[1][0] in NUMER and p[0][0] in DENOM):
                    ctx.violation('%s:product' % nm(f), loc(f, n), '%s multiplies the numerator of a fraction by its own denominator' % nm(f))
    # numerators say nothing without denominators
    T = set()
    for n in comparisons(f):
        for c in n['c']:
            if c is not None: T.add(S.shape(c))
    N = {t[2] for x in T for t in subterms(x) if len(t) == 3 and t[0] in ('m', 'call') and t[1] in NUMER}
    D = {t[2] for x in T for t in subterms(x) if len(t) == 3 and t[0] in ('m', 'call') and t[1] in DENOM}
    for t in N - D:
        if subst(t, SWAP) == t: continue      # e.g. the numerator of a difference
        z = subst(t, SWAP)
        if z in D: continue
        ctx.violation('%s:numerator' % nm(f), loc(f), '%s compares the numerator of a fraction, but never its denominator' % nm(f)); break
    return S

def covered(t, Q):
    """everything taken from the value is taken through terms in Q"""
    if t in Q: return True
    if t == ('A',): return False
    return not isinstance(t, tuple) or all(covered(x, Q) for x in t if isinstance(x, tuple))

def check_hash(ctx, P, h, eqf, a, b, neutral=()):
    """where equality compares quotients, the hash code must be made from these same quotients"""
    S = Shapes(P, eqf, a, b, neutral); Q = atoms(S, eqf)
    if not any(t[0] == 'call' and t[1] in ('divide', 'quotient', 'floor') for t in Q): return
    H = Shapes(P, h, None, None, neutral)
    new = {f['n'] for f in P.fns.values() if lib.is_new(f)}      # functions that may compute what used to be written out
    if new & {t[1] for q in Q for t in subterms(q) if t and t[0] == 'call'}: return
    def norm(t):       # local variables are not comparable between two functions
        if not isinstance(t, tuple): return t
        if t and t[0] in ('var',): return ('var',)
        if t and t[0] == 'ref': return ('ref',)
        return tuple(norm(x) if isinstance(x, tuple) else x for x in t)
    Qn = {norm(t) for t in Q}
    for n in fn_nodes(h):
        i = None
        if n['k'] == 'Var' and n.get('i') is not None and n['n'] in ('hash', 'h', 'result'): i = n['i']
        elif n['k'] == 'Bin' and n['op'] in ('=', '+='): i = n['c'][1]
        if i is None: continue
        st = [unwrap(i)]
        while st:
            e = unwrap(st.pop())
            if e is None: continue
            if e['k'] == 'Bin' and e['op'] in ('+', '*', '^', '<<', '&'): st += e['c']; continue
            if e['k'] in ('Int', 'Lit') or e['k'] == 'Ref' and e.get('d') in H.many: continue
            t = H.shape(e)
            if not has(t, 'A'): continue
            ctx.count('hash_parts')
            for alt in alternatives(t):
                if not covered(norm(alt), Qn) and not new & {q[1] for q in subterms(alt) if q and q[0] == 'call'}:
                    ctx.violation('%s:hashpart' % nm(h), loc(h, e), '%s uses something that the equality does not compare in this form: equal values may have different hash codes' % nm(h)); break
