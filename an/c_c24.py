"""C24: weights and coweights (roots and coroots) are never mixed up."""
import re
from src import walk, children, fn_nodes
import lib
from lib import lib_fns, nm, loc, unwrap

EXPLANATION = ('Every expression of vector, rational vector, matrix or vector-list type is given its side (weights or coweights) from the declared types Weight, RatWeight, WeightList, WeightInvolution, Root on one hand and '
               'Coweight, RatCoweight, CoweightList, CoweightInvolution on the other, propagated through arithmetic, copies, element access, automatically typed variables and function results.')
RULE = ('Pairings are between a weight and a coweight; sums, differences, assignments, comparisons, initialisations, arguments and results combine or hand over vectors of one side only; a matrix acts on vectors of its own side, '
        'and by right multiplication on vectors of the other side.')
ASSUMPTIONS = ['expressions of the unspecific types (int_Vector, int_Matrix) that are not derived from others have no side', 'operations on the dual object exchange the sides, and are listed']
WT = re.compile(r'(^|[^A-Za-z_])(Rat)?(Weight(List|Involution|_citer|_iter)?|RatWeightList|Root|RootList)\b')
CO = re.compile(r'(^|[^A-Za-z_])(Rat)?(Coweight(List|Involution|_citer|_iter)?|RatCoweightList|Coroot|CorootList)\b')
KEEP = ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator=', 'operator*=', 'operator/=', 'operator/', 'normalize', 'numerator', 'move', 'operator%=', 'negate', 'negative_subtract', 'add', 'subtract', 'forward', 'operator%',
        'begin', 'end', 'cbegin', 'cend', 'operator++', 'operator->', 'front', 'back', 'at', 'operator[]', 'data', 'negated', 'transposed_not')
SAME2 = ('operator+', 'operator-', 'operator+=', 'operator-=', 'operator=', 'operator==', 'operator!=', 'operator<', 'add', 'subtract')
# functions that work on either side (their parameters are for weights in the original and for coweights in the dual)
NEUTRAL = {'atlas::' + x for x in '''y_values::TorusElement::TorusElement y_values::exp_pi y_values::exp_2pi y_values::TorusElement::negative_at y_values::TorusElement::evaluate_at lattice::perp tori::dualPi0
 cartanclass::Fiber::Fiber cartanclass::Fiber::mAlpha tits::TitsGroup::TitsGroup involutions::InvolutionData::InvolutionData'''.split()}
# functions that do the work for weights and for coweights, as a flag says
BOTH = {'atlas::rootdata::' + x for x in 'basic_orbit extend_orbit extend_orbit_words'.split()}
NORESULT = NEUTRAL | BOTH | {'atlas::innerclass::InnerClass::dualDistinguished'}
# parameters, results and members declared with the name of the other side: function and position, position -1 for the result
REVERSED = {('atlas::rootdata::Weyl_orbit', 0): 'c', ('atlas::innerclass::twisted_act', 1): 'c', ('atlas::standardrepk::SRK_context::q_reflect_eq', 3): 'c', ('atlas::rootdata::RootDatum::fundamental_coweight', -1): 'c', ('atlas::rootdata::RootDatum::dual_image_by', -1): 'c',
            ('atlas::rootdata::RootDatum::shifted_dual_image_by', -1): 'c',
            ('atlas::standardrepk::Cartan_info::coroot_sum', -1): 'c'}
MEMBERS = {'sum_coroots': 'c', 'coroots_matrix': 'w'}        # (a matrix whose rows are coroots acts on weights)
REVERSED.update({('atlas::repr::codec::codec', 2): 'w', ('atlas::subsystem::integral_datum_item::coroots_matrix', -1): 'w'})
# reflections, and what is built from them, of vectors of any type of coefficients, by name: the side of the vectors they work on
ACTIONS = dict([(x, 'w') for x in 'reflect reflection simple_reflect simple_reflection factor_dominant to_dominant make_dominant act_inverse'.split()] +
               [(x, 'c') for x in 'coreflect coreflection simple_coreflect simple_coreflection factor_codominant to_codominant make_codominant dual_act dual_act_inverse'.split()])
# constructors from matrices whose columns are weights and coweights
COLUMNS = {'atlas::prerootdata::PreRootDatum::PreRootDatum': (0, 'w', 1, 'c')}

def named(t):
    t = t.split('(')[0]
    w, c = bool(WT.search(t)), bool(CO.search(t))
    return 'w' if w and not c else 'c' if c and not w else None
OTHER = {'w': 'c', 'c': 'w'}

def param(f, j):
    if nm(f) in NEUTRAL | BOTH or lib.is_new(f): return None     # of a new function the declared names are not taken at their word
    t = f['u'].types[f['params'][j]['t']]
    if f.get('n') in ACTIONS and nm(f).startswith(('atlas::rootdata::Root', 'atlas::prerootdata::')) and 'Vector<' in t[1]: return ACTIONS[f['n']]
    return REVERSED.get((nm(f), j)) or named(t[0])

class Sides:
    def __init__(s, P, f, res):
        s.P = P; s.f = f; s.u = f['u']; s.res = res; s.var = {}; s.defs = {}; s.decl = {}; s.rows = {}; s.cols = {}
        for j, p in enumerate(f['params']):
            q = param(f, j)
            if q: s.var[p['d']] = q
            elif (nm(f), j) in REVERSED or nm(f) in NEUTRAL: s.var[p['d']] = None
        for n in fn_nodes(f):
            if n['k'] == 'Var':
                q = named(s.u.types[n['t']][0]) if 't' in n else None
                if q: s.decl[n['d']] = q
                if n.get('i') is not None: s.defs.setdefault(n['d'], []).append(n['i'])
            elif n['k'] == 'Range':
                q = named(s.u.types[n['var']['t']][0])
                if q: s.decl[n['var']['d']] = q
                s.defs.setdefault(n['var']['d'], []).append(n['c'][0])
            elif lib.is_assign(n) and unwrap(n['c'][0])['k'] == 'Ref' and n.get('op') in ('=', '+=', '-='):
                s.defs.setdefault(unwrap(n['c'][0]).get('d'), []).append(n['c'][1])
            elif n['k'] == 'Call' and n.get('n') in ('set_row', 'set_column') and len(n['c']) == 3 and unwrap(n['c'][0])['k'] == 'Ref':
                (s.rows if n['n'] == 'set_row' else s.cols).setdefault(unwrap(n['c'][0]).get('d'), []).append(n['c'][2])
        s.memo = {}; s.busy = set()
    def columns(s, n):
        n = unwrap(n)
        while n['k'] == 'Con' and len(n['c']) == 1 and n['c'][0] is not None: n = unwrap(n['c'][0])
        qs = {s.side(v) for v in s.cols.get(n.get('d'), ())} - {None} if n['k'] == 'Ref' else ()
        return qs.pop() if len(qs) == 1 else None
    def vec(s, n): return 'matrix::Vector<' in s.T(n) or 'RationalVector<' in s.T(n)
    def T(s, n): return s.u.types[n['t']][1] if 't' in n else ''
    def S(s, n): return s.u.types[n['t']][0] if 't' in n else ''
    def side(s, n):
        if n is None: return None
        i = id(n)
        if hasattr(s, 'memo') and i in s.memo: return s.memo[i]
        if hasattr(s, 'busy'):
            if i in s.busy: return None
            s.busy.add(i)
        r = s.side0(n)
        if hasattr(s, 'busy'): s.busy.discard(i); s.memo[i] = r
        return r
    def scalar(s, n):
        t = s.T(n)
        return not ('Vector<' in t or 'Matrix' in t or 'vector<' in t or 'iterator' in t or '*' in t or 'list' in t)
    def side0(s, n):
        n = unwrap(n); k = n['k']
        if k in ('Int', 'Bool', 'Str', 'Float', 'Lambda'): return None
        if 't' in n and s.scalar(n): return None
        if k == 'Ref':
            d = n.get('d')
            if d in s.var: return s.var[d]
            if n.get('dk') == 'parm' or n.get('dk') == 'global' or n.get('dk') == 'slocal':
                return named(s.S(n)) or (n.get('dk') == 'parm' and s.lam(n)) or None
            if d in s.var: return s.var[d]
            qs = {s.side(x) for x in s.defs.get(d, ())} | {OTHER.get(s.side(x)) for x in s.rows.get(d, ())}
            qs -= {None}      # what a variable is given counts, not the name of its type
            if len(qs) == 1: return qs.pop()
            if d in s.decl: return s.decl[d]
            if qs: return None
            return named(s.S(n))
        if k == 'Mem': return MEMBERS.get(n['n']) or named(s.S(n))
        if k == 'Cond':
            qs = {s.side(c) for c in n['c'][1:]} - {None}
            return qs.pop() if len(qs) == 1 else None
        if k == 'Un': return s.side(n['c'][0])
        if k == 'Sub': return s.side(n['c'][0])
        if k == 'Bin':
            if n['op'] in ('+', '-', '+=', '-=', '='): return s.side(n['c'][0])
            if n['op'] == ',': return s.side(n['c'][1])
            return None
        if k == 'Con':
            a = [c for c in n['c'] if c is not None and c['k'] != 'DefArg']
            q = s.side(a[0]) if (len(a) == 1 or len(a) == 2 and s.scalar(a[1])) and not s.scalar(a[0]) else None
            return q or (None if all(s.scalar(c) for c in a) else named(s.S(n)))  # a zero vector takes the side of what it is used for
        if k == 'Call':
            f = n.get('n'); op = n.get('op')
            a = [c for c in n['c'] if c is not None]
            if f in ('numerator',) or op in ('-', '+', '+=', '-=', '=', '/', '/=', '*=', '++', '--', '->', '%=', '%') or f in KEEP:
                vs = [c for c in a if not s.scalar(c)] if f not in ('operator[]', 'at') else a[:1]
                for c in vs:
                    q = s.side(c)
                    if q: return q
                return named(s.S(n))
            if op == '*':
                if len(a) == 1: return s.side(a[0])
                x, y = a
                if s.scalar(y): return s.side(x)
                if s.scalar(x): return s.side(y)
                if 'Matrix' in s.T(x): return s.side(x)
                return None
            if f in ('right_prod',):     # M.right_prod(v) = v*M
                q = s.side(a[0]); return OTHER.get(q)
            if op in ('[]', '()'): return s.side(a[0])
            for t in s.P.targets(n):
                if t in s.res: return s.res[t]
                if t in s.P.fns and lib.is_new(s.P.fns[t]): return None
            return named(s.S(n))
        return None
    def lam(s, n): return None

def check(ctx):
    P = ctx.prog(); res = {}
    for i, f in lib_fns(P):
        if 'ret' in f and not lib.is_new(f):
            res[i] = REVERSED.get((nm(f), -1)) or (None if nm(f) in NORESULT else named(f['u'].types[f['ret']][0]))
            if res[i] is None and nm(f) not in NORESULT: del res[i]
    for i, f in lib_fns(P):
        if nm(f) in BOTH: continue
        s = Sides(P, f, res)
        dual = any('DualTag' in f['u'].types[p['t']][1] for p in f['params'])
        def bad(n, what, text):
            ctx.violation('%s:%s' % (what, nm(f)), loc(f, n), '%s %s' % (nm(f), text))
        for n in fn_nodes(f):
            k = n['k']
            if k == 'Return' and n.get('c') and n['c'][0] is not None and 'ret' in f:
                q = res.get(i); r = s.side(n['c'][0])
                if q and r:
                    ctx.count('results')
                    if q != r: bad(n, 'result', 'returns a %s as a %s' % (W[r], W[q]))
            elif k == 'Call' or k == 'Con':
                a = [c for c in n['c'] if c is not None and c['k'] != 'DefArg']
                name = n.get('n'); op = n.get('op')
                if name == 'set_row' and len(a) == 3:
                    q, r = s.side(a[0]), s.side(a[2])
                    if q and r:
                        ctx.count('rows')
                        if q == r: bad(n, 'row', 'makes a %s a row of a matrix that acts on %ss' % (W[r], W[q]))
                for t in P.targets(n) if k == 'Con' else ():
                    if t in P.fns and nm(P.fns[t]) in COLUMNS and len(a) > 1:
                        x = COLUMNS[nm(P.fns[t])]
                        for j, q in (x[:2], x[2:]):
                            r = s.columns(a[j])
                            if r:
                                ctx.count('columns')
                                if q != r: bad(n, 'columns', 'gives %s %ss where it wants %ss' % (nm(P.fns[t]), W[r], W[q]))
                if name in ('dot', 'dot_Q', 'scalar_prod', 'bilinear_form') and len(a) == 2:
                    q, r = s.side(a[0]), s.side(a[1])
                    if q and r:
                        ctx.count('pairings')
                        if q == r: bad(n, 'pairing', 'pairs two %ss' % W[q])
                    continue
                if len(a) == 2 and (op in ('+', '-', '+=', '-=', '=', '==', '!=', '<') or name in SAME2) and k == 'Call' and not s.scalar(a[0]) and not s.scalar(a[1]):
                    q, r = s.side(a[0]), s.side(a[1])
                    if q and r:
                        ctx.count('sums, assignments and comparisons')
                        if q != r: bad(n, 'combine', 'combines (by %s) a %s with a %s' % (op or name, W[q], W[r]))
                    if op: continue
                if op == '*' and len(a) == 2 and not s.scalar(a[0]) and not s.scalar(a[1]) and 'Matrix' in s.T(a[0]):
                    q, r = s.side(a[0]), s.side(a[1])
                    if q and r:
                        ctx.count('matrix actions')
                        if q != r: bad(n, 'action', 'applies a matrix for %ss to a %s' % (W[q], W[r]))
                    continue
                if name in ('right_prod', 'right_mult') and len(a) == 2 and not s.scalar(a[1]):
                    q, r = s.side(a[0]), s.side(a[1])
                    if q and r:
                        ctx.count('matrix actions')
                        if q == r and 'Matrix' in s.T(a[0]): bad(n, 'action', 'multiplies a %s on the right by a matrix for %ss' % (W[r], W[q]))
                    continue
                for t in P.targets(n):
                    g = P.fns.get(t)
                    if g is None or lib.is_interp(g) or op in ('<<', '>>'): continue
                    off = len(n['c']) - len(g['params']) if k == 'Call' and (n.get('m') or n.get('om')) else 0
                    for j, p in enumerate(g['params']):
                        if j + off >= len(n['c']) or n['c'][j + off] is None or n['c'][j + off]['k'] == 'DefArg': continue
                        q = param(g, j); r = s.side(n['c'][j + off])
                        if q and r:
                            ctx.count('arguments')
                            if q != r: bad(n, 'argument:%s' % g.get('n'), 'gives %s a %s where it wants a %s' % (nm(g), W[r], W[q]))
                    break
    for c, m in (('pairings', 100), ('arguments', 300), ('results', 80), ('sums, assignments and comparisons', 200), ('matrix actions', 30)): ctx.floor(c, m)
W = {'w': 'weight', 'c': 'coweight'}
