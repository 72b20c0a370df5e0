"""C21: residues, quotients and comparisons are right for negative numbers."""
import re
from src import walk, children, fn_nodes
import lib
from lib import lib_fns, nm, loc, unwrap

EXPLANATION = ('For every integer expression of the library and of Fokko it is determined whether its value may be negative (from its type, from the operations that make it up, from what the variables in it are given, '
               'and from enclosing tests of its sign), and in which type each operation is carried out.')
RULE = ('The remainder left by % of a number that may be negative is only compared with zero; no number that may be negative is converted to an unsigned type in order to be divided, reduced, shifted right or compared; '
        'pairings of vectors are not kept in unsigned variables; no test is decided by the type of its operand alone; differences and negatives of unsigned numbers are not widened; '
        'functions that compute floors or residues do not use truncating division on numbers that may be negative; no shift by a variable amount is carried out in a type too narrow for its result.')
ASSUMPTIONS = ['denominators, dimensions and sizes are not negative', 'signed overflow is not considered']
SIGNED = ('int', 'long', 'long long', 'short', 'signed char', 'char')
WIDTH = {'unsigned char': 8, 'unsigned short': 16, 'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'int': 32, 'long': 64, 'long long': 64, 'short': 16,
         'signed char': 8, 'char': 8}
POSITIVE = ('abs', 'remainder', 'size', 'gcd', 'unsigned_gcd', 'lcm', 'count', 'length', 'denominator', 'distance', 'rank', 'n_rows', 'n_columns', 'first_bit', 'last_bit', 'level', 'degree', 'Cartan_denominator')
PAIRING = ('dot', 'dot_Q', 'bilinear_form')
FLOORS = ('floor', 'ceil', 'divide', 'mod1', 'quotient', 'remainder')
# the height of a weight is computed after making it dominant
HEIGHT = {'atlas::standardrepk::SRK_context::height', 'atlas::standardrepk::SRK_context::height_bound'}
# functions in which quotients of numbers that may be negative are exact (or, for progress reports and heights of dominant weights, numbers that are not negative)
EXACT = {'atlas::' + x for x in '''arithmetic::Rational::normalize arithmetic::Rational::operator/ arithmetic::Rational::operator/= arithmetic::Split_integer::e arithmetic::Split_integer::s ext_block::same_sign
ext_block::star filekl::progress_info::progress_info filekl::write_matrix_file interactive_lattice::readGenerator involutions::InvolutionTable::add_cross kl::KL_table::verbose_fill
matreduc::adapted_basis matreduc::column_clear matreduc::echelon_solve matreduc::find_solution matreduc::row_clear matrix::operator/= polynomials::Polynomial::operator/=
ratvec::RationalVector::dot ratvec::RationalVector::integer_diff repr::Rep_context::Cayley repr::Rep_context::KGP_set repr::Rep_context::finals_for repr::Rep_context::height
repr::Rep_context::height_bound repr::Rep_context::lambda_rho repr::Rep_context::reducibility_points repr::Rep_context::sr_gamma repr::Rep_context::theta_1_preimage
repr::Rep_table::twisted_full_deformation repr::codec::internalise repr::common_context::is_parity repr::common_context::up_Cayley standardrepk::SRK_context::KGB_sum
standardrepk::SRK_context::back_HS_id standardrepk::SRK_context::q_HS_id_eq standardrepk::SRK_context::q_KGB_sum standardrepk::SRK_context::q_reflect_eq
tits::GlobalTitsGroup::cross_act'''.split()}

class Sign:
    def __init__(s, P, f):
        s.P = P; s.f = f; s.u = f['u']; s.memo = {}
        s.par = {}; s.defs = {}; s.bad = set(); s.fixed = {}
        st = [f['body']] + [i['e'] for i in f.get('inits', ()) if i.get('e')]
        for n in fn_nodes(f):
            for c in children(n): s.par[id(c)] = n
            k = n['k']
            if k == 'Var' and n.get('i') is not None: s.defs.setdefault(n['d'], []).append(n['i'])
            elif k == 'Var': s.defs.setdefault(n['d'], [])
            elif k == 'Bin' and n['op'] in ('=', '+=', '*=', '/=', '-=', '%=', '>>=', '&=', '|=') and unwrap(n['c'][0])['k'] == 'Ref':
                d = unwrap(n['c'][0]).get('d')
                if n['op'] in ('-=', '%=') : s.bad.add(d)
                elif n['op'] in ('|=',): s.bad.add(d)
                elif n['op'] == '&=': pass
                else: s.defs.setdefault(d, []).append(n['c'][1])
            elif k == 'Un' and n['op'] in ('--', '&'):
                x = unwrap(n['c'][0])
                if x['k'] == 'Ref': s.bad.add(x.get('d'))
            elif k in ('Call', 'Con'):
                for c in n['c']:
                    x = unwrap(c)
                    if x is not None and x['k'] == 'Ref' and s.by_reference(n, c): s.bad.add(x.get('d'))
            elif k == 'If' and len(n['c']) > 1: s.sign_fix(n)
    def by_reference(s, call, arg):
        for t in s.P.targets(call):
            g = s.P.fns.get(t)
            if g is None: continue
            try: j = [id(c) for c in call['c']].index(id(arg))
            except ValueError: continue
            off = 1 if call['k'] == 'Call' and g.get('cls') and not g.get('static') else 0
            off = len(call['c']) - len(g['params']) if call['k'] == 'Call' else 0
            if 0 <= j - off < len(g['params']):
                ty = g['u'].types[g['params'][j - off]['t']][1]
                return ty.endswith('&') and not ty.startswith('const ')
        return False
    def T(s, n): return s.u.types[n['t']][1].replace('const ', '').strip() if 't' in n else '?'
    def key(s, n):
        n = unwrap(n)
        while n is not None and n['k'] in ('ICast', 'Paren'): n = unwrap(n['c'][0])
        if n is None: return None
        if n['k'] == 'Ref': return ('r', n.get('d') or n.get('n'))
        if n['k'] == 'This': return ('t',)
        if n['k'] == 'Mem':
            b = s.key(n['c'][0]) if n.get('c') else ('t',)
            return b and b + (n['n'],)
        if n['k'] in ('Sub', 'Call') and n.get('op') in ('[]', None, '()') :
            ks = [s.key(c) for c in n['c'] if c is not None]
            return None if None in ks else ('c', n.get('q', ''), tuple(ks))
        if n['k'] == 'Int': return ('i', n.get('v'))
        return None
    def zero(s, n):
        n = unwrap(n)
        while n is not None and (n['k'] in ('ICast', 'Paren', 'Cast') or n['k'] == 'Con' and len(n['c']) == 1): n = unwrap(n['c'][0])
        return n is not None and n['k'] == 'Int' and str(n.get('v')) == '0'
    def test(s, c):
        """(key, sign when true, sign when false) of a sign test"""
        c = unwrap(c)
        while c is not None and c['k'] in ('Paren', 'ICast'): c = unwrap(c['c'][0])
        if c is None or c['k'] != 'Bin' or c['op'] not in ('<', '>', '<=', '>='): return None
        a, b = c['c']; op = c['op']
        if s.zero(a) and not s.zero(b): a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
        if not s.zero(b): return None
        k = s.key(a)
        return k and {'<': (k, -1, 1), '>=': (k, 1, -1), '>': (k, 1, -2), '<=': (k, -2, 1)}[op]
    def sign_fix(s, n):
        t = s.test(n['c'][0])
        if not t or t[1] not in (-1, -2): return
        for m in walk(n['c'][1]):
            if m['k'] == 'Bin' and m['op'] == '=' and s.key(m['c'][0]) == t[0]:
                r = unwrap(m['c'][1])
                while r['k'] in ('ICast', 'Paren'): r = unwrap(r['c'][0])
                if r['k'] == 'Un' and r['op'] == '-': s.fixed[t[0]] = n.get('l', 0)
    def guard(s, n, key):
        """sign known from the tests n is subject to"""
        x = n
        while id(x) in s.par:
            p = s.par[id(x)]
            if p['k'] in ('If', 'Cond') and len(p['c']) > 1:
                t = s.test(p['c'][0])
                if t and t[0] == key:
                    if p['c'][1] is x: return t[1]
                    if len(p['c']) > 2 and p['c'][2] is x: return t[2]
            if p['k'] == 'Bin' and p['op'] == '&&' and p['c'][1] is x:
                t = s.test(p['c'][0])
                if t and t[0] == key: return t[1]
            x = p
        return 0
    def nonneg(s, n, depth=0):
        n = unwrap(n); k = n['k']; t = s.T(n)
        if depth > 12: return False
        if 'unsigned' in t or t == 'bool' or t not in SIGNED: return True
        if k == 'Int': return int(n.get('v', 0)) >= 0
        if k in ('ICast', 'Cast', 'Paren'): return s.nonneg(n['c'][0], depth + 1)
        if k == 'DefArg': return s.nonneg(n['c'][0], depth + 1)
        if k == 'Con' and len(n['c']) == 1: return s.nonneg(n['c'][0], depth + 1)
        if k == 'Chr': return True
        if k == 'Cond': return all(s.nonneg(c, depth + 1) for c in n['c'][1:])
        if k == 'Bin':
            if n['op'] in ('+', '*', '/', '<<', '|'):
                if n['op'] == '*' and s.key(n['c'][0]) is not None and s.key(n['c'][0]) == s.key(n['c'][1]): return True
                return all(s.nonneg(c, depth + 1) for c in n['c'])
            if n['op'] in ('%', '>>'): return s.nonneg(n['c'][0], depth + 1)
            if n['op'] == '&': return any(s.nonneg(c, depth + 1) for c in n['c'])
            if n['op'] in (',', '='): return s.nonneg(n['c'][1], depth + 1)
            if n['op'] == '-': return s.minus(n['c'][0], n['c'][1])
            return False
        if k == 'Un' and n['op'] == '-':
            key = s.key(n['c'][0])
            return key is not None and s.guard(n, key) in (-1, -2)
        if k == 'Call' and n.get('n') in POSITIVE: return True
        if k == 'Call' and n.get('op') == '-' and ('iterator' in str([s.T(c) for c in n['c']])): return True      # distance between positions
        key = s.key(n)
        if key is not None:
            g = s.guard(n, key)
            if g: return g > 0
            if key in s.fixed and n.get('l', 0) >= s.fixed[key]: return True
        if k == 'Ref' and n.get('dk') == 'local' and n.get('d') in s.defs and n['d'] not in s.bad:
            if s.memo.get(n['d']) is not None: return s.memo[n['d']]
            s.memo[n['d']] = True          # assumed of the variable in its own definition (x = x+1)
            r = s.memo[n['d']] = all(s.nonneg(x, depth + 1) for x in s.defs[n['d']])
            return r
        return False
    def minus(s, a, b):
        """a-b: pointers, a subtraction of what cannot exceed, -1-x with x negative, lengths"""
        if s.T(unwrap(a)) not in SIGNED: return True
        c = unwrap(a)
        while c['k'] in ('ICast', 'Paren'): c = unwrap(c['c'][0])
        d = unwrap(b)
        while d['k'] in ('ICast', 'Paren'): d = unwrap(d['c'][0])
        if 'unsigned' in s.T(c) and 'unsigned' in s.T(d): return True       # promoted small unsigned numbers: lengths and the like
        if (c['k'] == 'Un' and c['op'] == '-' or c['k'] == 'Int' and int(c.get('v', 0)) < 0):
            k = s.key(d)
            return k is not None and s.guard(d, k) == -1       # -1-x is negative for x=0
        return 'unsigned' in s.T(c) and d['k'] == 'Int'

def up(s, n):
    """nearest enclosing construct that is not a mere conversion, and its operand on the way"""
    x = n; p = s.par.get(id(x))
    while p is not None and p['k'] in ('Paren', 'Cast', 'Exp') or p is not None and p['k'] == 'ICast' and p.get('ck') != 'IntegralToBoolean':
        x = p; p = s.par.get(id(x))
    return x, p

def only_zero(s, n, seen=()):
    """the value n is used for comparison with zero (or conversion to bool) only"""
    x, p = up(s, n)
    if p is None: return s.u.types[s.f['ret']][1] == 'bool' if 'ret' in s.f else False
    k = p['k']
    if k == 'ICast': return True
    if k in ('If', 'While', 'For', 'Do', 'Cond') and p['c'] and p['c'][0] is x and k in ('If', 'Cond', 'While'): return True
    if k == 'Un' and p['op'] == '!': return True
    if k == 'Bin' and p['op'] in ('&&', '||'): return True
    if k == 'Bin' and p['op'] in ('==', '!='):
        o = p['c'][1] if p['c'][0] is x else p['c'][0]
        return s.zero(o)
    if k == 'Cond' and p['c'][0] is not x: return only_zero(s, p, seen)
    if k == 'Return':
        if 'ret' in s.f and s.u.types[s.f['ret']][1] == 'bool': return True
        return returned_zero(s, seen)
    if k in ('Var', 'Decl') and 'd' in p:
        if p['d'] in seen: return True
        if s.T(p) == 'bool': return True
        for m in fn_nodes(s.f):
            if m['k'] == 'Ref' and m.get('d') == p['d'] and not only_zero(s, m, seen + (p['d'],)): return False
        return True
    return False

def returned_zero(s, seen):
    """every caller only compares the result with zero"""
    if ('fn', s.f['id']) in seen or len(seen) > 6: return False
    cs = s.P.callers.get(s.f['id'], ())
    if not cs: return False
    for c in cs:
        g = s.P.fns.get(c)
        if g is None: return False
        S = s.get(g)
        for m in fn_nodes(g):
            if m['k'] == 'Call' and s.f['id'] in s.P.targets(m) and not only_zero(S, m, seen + (('fn', s.f['id']),)): return False
    return True

def peel(n):
    n = unwrap(n)
    while n['k'] in ('ICast', 'Paren'): n = unwrap(n['c'][0])
    return n

def check(ctx):
    P = ctx.prog(); cache = {}; decided = []; meaningful = set()
    def get(f):
        if f['id'] not in cache:
            cache[f['id']] = Sign(P, f); cache[f['id']].get = get
        return cache[f['id']]
    for i, f in lib_fns(P):
        ctx.count('functions'); s = get(f); T = s.T
        div = nm(f) in ('atlas::arithmetic::divide', 'atlas::arithmetic::remainder')
        for n in fn_nodes(f):
            k = n['k']
            if k == 'Bin':
                op = n['op']; a, b = n['c'][0], n['c'][1]
                if op in ('%', '%=') and T(a) in SIGNED and T(b) in SIGNED:
                    ctx.count('signed remainders')
                    if not s.nonneg(a) and (op == '%=' or not only_zero(s, n)):
                        ctx.violation('remainder:' + nm(f), loc(f, n), '%s uses the remainder left by %% of a number that may be negative other than by comparing it with zero' % nm(f))
                if op in ('/', '/=') and T(a) in SIGNED and f.get('n') in FLOORS:
                    ctx.count('divisions in floor functions')
                    if not s.nonneg(a): ctx.violation('floor:' + nm(f), loc(f, n), '%s divides a number that may be negative by a division that rounds towards zero' % nm(f))
                elif op in ('/', '/=') and T(a) in SIGNED and not s.nonneg(a):
                    ctx.count('signed divisions')
                    if not lib.exempt(P, f, EXACT) and not gcd_divided(s, b):
                        ctx.violation('truncated:' + nm(f), loc(f, n), '%s divides a number that may be negative by a division that rounds towards zero' % nm(f))
                if op in ('/', '%', '>>', '<', '>', '<=', '>='):
                    for c in (a, b):
                        if c['k'] == 'ICast' and c.get('ck') == 'IntegralCast' and 'unsigned' in T(c) and T(c['c'][0]) in SIGNED and not (op == '>>' and c is b):
                            ctx.count('conversions to unsigned in operations')
                            if not s.nonneg(c['c'][0]): ctx.violation('unsigned:%s:%s' % (nm(f), op), loc(f, n), '%s converts a number that may be negative to an unsigned type in order to apply %s' % (nm(f), op))
                if op in ('/=', '%='):
                    ctx.count('compound divisions')
                    if T(a) in SIGNED and 'unsigned' in T(b) and WIDTH.get(T(peel(b)), 64) >= WIDTH.get(T(a), 32) and WIDTH.get(T(peel(b)), 64) >= 32 and not s.nonneg(a):
                        ctx.violation('unsigned:%s:%s' % (nm(f), op), loc(f, n), '%s applies %s to a number that may be negative in an unsigned type' % (nm(f), op))
                    if 'unsigned' in T(a) and T(peel(b)) in SIGNED and not s.nonneg(b):
                        ctx.violation('unsigned:%s:%s' % (nm(f), op), loc(f, n), '%s applies %s to an unsigned number and one that may be negative' % (nm(f), op))
                if op in ('<', '>=') and s.zero(b) and 'unsigned' in T(peel(a)) or op in ('>', '<=') and s.zero(a) and 'unsigned' in T(peel(b)):
                    decided.append((loc(f, n), 'decided:' + nm(f), '%s tests whether an unsigned number is negative' % nm(f)))
                elif op in ('<', '>=') and s.zero(b) or op in ('>', '<=') and s.zero(a): meaningful.add(loc(f, n))
                if op in ('==', '!='):
                    for c, o in ((a, b), (b, a)):
                        pc, po = peel(c), o
                        while po is not None and po['k'] in ('ICast', 'Paren'): po = po['c'][0]
                        if WIDTH.get(T(pc), 64) < 32 and 'unsigned' in T(pc):
                            if po['k'] == 'Un' and po['op'] in ('-', '~') and T(po) in SIGNED and unwrap(po['c'][0])['k'] == 'Int':
                                ctx.violation('decided:' + nm(f), loc(f, n), '%s compares a small unsigned number with a negative constant' % nm(f))
                if op == '<<' and T(n) in WIDTH and WIDTH[T(n)] <= 32 and unwrap(b)['k'] != 'Int' and peel(b)['k'] != 'Int':
                    ctx.count('narrow shifts')
                    x, p = up(s, n)
                    q = n
                    while s.par.get(id(q)) is not None and s.par[id(q)]['k'] in ('ICast', 'Cast', 'Paren') or s.par.get(id(q)) is not None and s.par[id(q)]['k'] == 'Bin' and s.par[id(q)]['op'] in ('|', '&', '-', '~', '^'): q = s.par[id(q)]
                    y = peel(b)
                    if WIDTH.get(T(q), 0) == 64 and not small_set(s, q) and not (y['k'] == 'Call' and y.get('n') in ('rank', 'count', 'semisimple_rank', 'size')):
                        ctx.violation('shift:' + nm(f), loc(f, n), '%s shifts in a type of 32 bits and only then widens the result' % nm(f))
                    if enum_max(P, s, y) >= WIDTH[T(n)]:
                        ctx.violation('shift:' + nm(f), loc(f, n), '%s shifts by an amount that can exceed the width of the type' % nm(f))
            elif k == 'Call' and n.get('n') == 'abs' and n['c']:
                ctx.count('absolute values')
                if 'unsigned' in T(peel(n['c'][-1])): ctx.violation('abs:' + nm(f), loc(f, n), '%s takes the absolute value of an unsigned number' % nm(f))
            elif k in ('ICast', 'Cast') and n.get('c') and T(n) in WIDTH:
                c = unwrap(n['c'][0])
                while c['k'] == 'Paren': c = unwrap(c['c'][0])
                t = T(c)
                if T(n) in SIGNED and 'unsigned' in t and (c['k'] == 'Bin' and c['op'] == '-' or c['k'] == 'Un' and c['op'] == '-') and WIDTH[T(n)] > WIDTH.get(t, 64):
                    ctx.violation('widen:' + nm(f), loc(f, n), '%s widens a difference computed in an unsigned type' % nm(f))
                if k == 'ICast' and 'unsigned' in T(n) and T(c) in SIGNED:
                    d = peel(c)
                    if d['k'] == 'Call' and d.get('n') in PAIRING:
                        ctx.count('pairings converted')
                        x, p = up(s, n)
                        hashing = p is not None and p['k'] == 'Bin' and p['op'] in ('+', '*', '^', '&', '==', '!=')
                        if not hashing and not lib.exempt(P, f, HEIGHT) and f.get('n') != 'height' and 'hash' not in (f.get('n') or '').lower():
                            ctx.violation('pairing:' + nm(f), loc(f, n), '%s keeps a pairing of vectors, which may be negative, as an unsigned number' % nm(f))
    for l, key, text in decided:        # in a template, the test may be there for the instances with a signed type
        if l not in meaningful: ctx.violation(key, l, text)
    ctx.floor('functions', 2000); ctx.floor('signed remainders', 60)

def gcd_divided(s, n):
    """a greatest common divisor divides"""
    n = peel(n)
    while n['k'] == 'Cast': n = peel(n['c'][0])
    if n['k'] == 'Call': return 'gcd' in (n.get('n') or '')
    if n['k'] == 'Ref' and n.get('d') in s.defs: return bool(s.defs[n['d']]) and all(gcd_divided(s, x) for x in s.defs[n['d']])
    return False

def small_set(s, n):
    """n is given to the constructor of a set of at most 32 bits"""
    p = s.par.get(id(n))
    while p is not None and p['k'] in ('Paren', 'Cast', 'ICast', 'Exp') : p = s.par.get(id(p))
    m = re.search(r'BitSet<(\d+)', s.T(p)) if p is not None and p['k'] == 'Con' else None
    return m is not None and int(m.group(1)) <= 32

def enum_max(P, s, n):
    """the largest value of the enumeration type that n has, -1 when it has none"""
    t = s.u.types[n['t']][1].replace('const ', '') if 't' in n else ''
    e = P.enums.get(t)
    return max(int(x[1]) if int(x[1]) < 1 << 63 else -1 for x in e['vals']) if e else -1
