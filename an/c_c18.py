"""C18: numbers are used only in the sense in which they were produced."""
import re, collections
from src import walk, children, fn_nodes
from prog import strip, bare
import lib
from lib import nm, loc, unwrap, is_interp

EXPLANATION = ('Every element number (simple generator, root, KGB element, block element, involution, Cartan class, real form, polynomial, ...) '
               'has a sense, taken from the declared names of the types of the functions, parameters and members that produce it; it is followed through variables, conversions and arithmetic '
               'to each place that uses it. Senses of array indices and of bounds are inferred from all uses in the program.')
RULE = ('No number is assigned, passed, returned, compared or used as index where a number of another sense belongs.')
ASSUMPTIONS = ['the declared name of a function result, parameter or member says what it holds; local variables take the sense of what initialises them']

NUM = {'KGBElt', 'BlockElt', 'RootNbr', 'CartanNbr', 'RealFormNbr', 'Generator', 'InvolutionNbr', 'KLIndex', 'K_type_nr',
       'square_class', 'fiber_orbit', 'adjoint_fiber_orbit', 'inv_index', 'seqno', 'Degree'}
VEC = {}       # (the sides of vectors are the matter of C24)
LISTS = {'RootNbrList': ('n', 'RootNbr')}
# functions whose declared type name is less precise than what they return or take
RET = {'simpleRootIndex': ('n', 'Generator'), 'posroot_index': None, 'find_descent': ('n', 'Generator')}
PARM = {}
SETS = {'Cartan_set': ('n', 'CartanNbr'), 'dual_Cartan_set': ('n', 'CartanNbr'), 'below': ('n', 'CartanNbr'), 'real_forms': ('n', 'RealFormNbr'), 'dual_real_forms': ('n', 'RealFormNbr'),
        'imaginary_roots': ('n', 'RootNbr'), 'real_roots': ('n', 'RootNbr')}
COUNTS = {'semisimple_rank': ('n', 'Generator'), 'numCartanClasses': ('n', 'CartanNbr'), 'numRealForms': ('n', 'RealFormNbr'), 'numDualRealForms': ('n', 'RealFormNbr')}
BOTH = {'Weyl_orbit'}      # its vector is of either side, decided by another argument
COSIDE = re.compile(r'(?i)cowt|coweight|coroot|vee$|check$')     # such names say that the vector is on the coweight side
DUAL = re.compile(r'(d_)?y\d*$|dual_x|first_y|last_y')
GENERIC = re.compile(r'bitmap::|bitset::|containers::|matrix::|partition::|std::|ioutils::|basic_io::|prettyprint::|hashtable::|bits::|permutations::|Vector|polynomials::|::operator')
SAME = [{('n', 'Generator'), ('n', 'RootNbr')}, {('n', 'inv_index'), ('n', 'InvolutionNbr')}, {('n', 'RealFormNbr'), ('n', 'adjoint_fiber_orbit')}]
POS = {'posRootNbr', 'posRoot', 'posCoroot', 'colegs', 'is_sum_of_roots'}       # take the position in the list of positive roots: simple roots come first
EMBED = {(('n', 'RealFormNbr'), ('n', 'adjoint_fiber_orbit'))}   # weak real forms number the orbits in the fundamental adjoint fiber
NEUTRAL = re.compile(r'(^|::)(TorusElement|y_values|exp_pi|exp_2pi)\b')
ELT = re.compile(r'(?:vector|sl_list|simple_list|stack|queue|deque|set|initializer_list)<(?:const )?([\w:]+)(?:,[^<>]*)?>')
PAIR = {'dot', 'scalar_product', 'scalarProduct'}
NAMES = {'n': {'bit': 'member of a small set of generators', 'Generator': 'simple generator', 'RootNbr': 'root', 'KGBElt': 'KGB element', 'dual KGBElt': 'KGB element of the dual group', 'BlockElt': 'block element', 'InvolutionNbr': 'involution', 'CartanNbr': 'Cartan class', 'RealFormNbr': 'real form',
               'KLIndex': 'polynomial', 'K_type_nr': 'K-type'}, 'v': {'W': 'weight', 'C': 'coweight'}}

def say(k): return ('number of a ' if k[0] == 'n' else '') + NAMES[k[0]].get(k[1], k[1])

def co(k, name):
    if k == ('n', 'KGBElt') and DUAL.match(name): return ('n', 'dual KGBElt')
    return ('v', 'C') if k == ('v', 'W') and COSIDE.search(name) else k
def base(s):
    s = re.sub(r'^const ', '', s)
    s = re.sub(r'( const)?[ &*]+$', '', s)
    return s.strip()
def kname(s):
    b = base(s)
    if '<' in b or '(' in b: return None
    b = b.split('::')[-1]
    if b in NUM: return ('n', b)
    if b in VEC: return ('v', VEC[b])
    return None
def eltkind(s):
    b = base(s)
    if b.split('::')[-1] in LISTS: return LISTS[b.split('::')[-1]]
    m = ELT.search(b)
    return kname(m.group(1)) if m else None

class Kinds:
    def __init__(s, P):
        s.P = P; s.loc = {}
        # declared kinds of fields and variables by (class, name)
    def locals(s, f):
        """{decl id: (kind, strong)} for locals and parameters"""
        i = id(f)
        if i in s.loc: return s.loc[i]
        u = f['u']; L = s.loc[i] = {}
        for p in f['params']:
            k = co(kname(u.types[p['t']][0]), p['n'])
            if f.get('n') in PARM and k and k[0] == 'v': k = PARM[f['n']]
            if k: L[p['d']] = (k, True)
        for n in fn_nodes(f):
            if n['k'] == 'Lambda':
                for p in n.get('params', ()):
                    k = kname(u.types[p['t']][0])
                    if k: L[p['d']] = (k, True)
            if n['k'] == 'Range':
                v = n['var']; k = kname(u.types[v['t']][0]) or s.elt_of(f, n['c'][0])
                if k: L[v['d']] = (k, True)
            if n['k'] == 'For':
                k = bounded(f, n)
                if k: L.setdefault(k[0], (k[1], True))
            if n['k'] != 'Var': continue
            if n['d'] in L: continue
            d = co(kname(u.types[n['t']][0]), n['n'])
            k = s.kind(f, n['i']) if n.get('i') is not None else None
            if k and (d is None or d[0] == k[0]):
                if d is None and not s.compatible(u.types[n['t']][1], k): continue
                L[n['d']] = (k, True)
            elif d and (d[0] == 'n' or d[1] == 'C' and COSIDE.search(n['n'])): L[n['d']] = (d, d[1] not in ('RootNbr', 'Generator') or n.get('i') is None or not zero(n['i']))
        return L
    def compatible(s, t, k):
        t = base(t)
        if k[0] == 'v': return 'Vector<' in t or 'RationalVector' in t
        return bool(re.match(r'^(unsigned|unsigned (int|short|char|long))$', t))
    def elt_of(s, f, n):
        n = unwrap(n)
        if n is None: return None
        if n['k'] == 'Ref' and n.get('dk') in ('local', 'binding'):
            for x in fn_nodes(f):
                if x['k'] == 'Var' and x['d'] == n['d'] and x.get('i') is not None and unwrap(x['i']) is not None and unwrap(x['i'])['k'] in ('Mem', 'Call', 'Ref') and unwrap(x['i']) is not n:
                    return s.elt_of(f, x['i'])
        if n['k'] in ('Ref', 'Mem', 'Call') and 't' in n: return co(eltkind(f['u'].types[n['t']][0]), n.get('n') or n.get('q', ''))
        return None
    def member(s, f, n):
        """the sense of the members of a set that is iterated over"""
        n = unwrap(n)
        if n is None or 't' not in n: return None
        sp, t = f['u'].types[n['t']]
        if n['k'] == 'Ref' and n.get('dk') in ('local', 'binding') and 'iterator' in t:
            i = s.init(f, n['d'])
            if i is None: return None
            i = unwrap(i)
            while i is not None and i['k'] == 'Con' and len([x for x in i['c'] if x]) == 1: i = unwrap(i['c'][0])
            if i is not None and i['k'] == 'Call' and i.get('n') in ('begin', 'cbegin') and i['c'] and i['c'][0] is not None: return s.member(f, i['c'][0])
            return None
        if 'BitSet<' in t: return ('n', 'bit')
        if 'BitMap' in t:
            if base(sp).split('::')[-1] == 'RootNbrSet': return ('n', 'RootNbr')
            if n['k'] in ('Call', 'Mem') and n.get('n') in SETS: return SETS[n['n']]
            if n['k'] == 'Ref' and n.get('dk') in ('local', 'binding'):
                i = s.init(f, n['d'])
                if i is not None and unwrap(i) is not n: return s.member(f, i)
        return None
    def init(s, f, d):
        m = s.loc.setdefault(('i', id(f)), None)
        if m is None:
            m = s.loc[('i', id(f))] = {x['d']: x['i'] for x in fn_nodes(f) if x['k'] == 'Var' and x.get('i') is not None}
        return m.get(d)
    def strong(s, f, n):
        n = unwrap(n)
        if n is not None and n['k'] == 'Ref' and n.get('dk') in ('local', 'parm', 'binding'):
            return s.locals(f).get(n['d'], (None, True))[1]
        return True
    def kind(s, f, n):
        if n is None: return None
        u = f['u']; k = n['k']
        if k == 'ICast': return s.kind(f, n['c'][0])
        sp = u.types[n['t']][0] if 't' in n else ''
        if k == 'Cast':
            d = kname(sp)
            if d: return d
            return None
        if k == 'Ref':
            if n.get('dk') in ('local', 'parm', 'binding'): return s.locals(f).get(n['d'], (None,))[0]
            return kname(sp)
        if k == 'Mem': return co(kname(sp), n['n'])
        if k == 'Cond':
            a, b = s.kind(f, n['c'][1]), s.kind(f, n['c'][2])
            return a if a == b or b is None else b if a is None else None
        if k == 'Un':
            if n['op'] in ('++', '--', '-', '+'): return s.kind(f, n['c'][0])
            return kname(sp)
        if k == 'Sub': return kname(sp) or s.elt_of(f, n['c'][0])
        if k == 'Bin':
            if n['op'] in ('=', '+=', '-='): return s.kind(f, n['c'][0])
            return None
        if k == 'Con':
            a = [x for x in n.get('c', ()) if x]
            if (n.get('cp') or n.get('mv')) and len(a) == 1: return s.kind(f, a[0])
            if 'iterator' in n.get('q', '') and len(a) == 1: return s.kind(f, a[0])
            d = kname(sp)
            if d and d[0] == 'v':       # e.g. RatWeight(v,2); a vector built otherwise takes its side from its use
                x = s.kind(f, a[0]) if a else None
                return x if x and x[0] == 'v' else None
            return d
        if k == 'Call':
            name = n.get('n'); c = [x for x in n.get('c', ()) if x]
            if name in RET: return RET[name]
            q = strip(n.get('q', ''))
            if NEUTRAL.search(q): return None
            if name in ('numerator', 'normalize', 'scaled', 'scale', 'begin', 'end', 'cbegin', 'cend') and c and 't' in unwrap(c[0]) and 'Vector' in u.types[unwrap(c[0])['t']][1]: return s.kind(f, c[0])
            if name == 'move' and q == 'std::move' or name == 'forward': return s.kind(f, c[0])
            if name in ('min', 'max') and q.startswith('std::') and len(c) == 2:
                a, b = s.kind(f, c[0]), s.kind(f, c[1]); return a if a == b else None
            op = n.get('op')
            if op in ('+', '-', '*', '/', '%') and 'Vector' in sp + u.types[n['t']][1]:
                ks = {x for x in (s.kind(f, y) for y in c) if x and x[0] == 'v'}
                return ks.pop() if len(ks) == 1 and not any('atrix' in u.types[y['t']][1] for y in c if 't' in y) else None
            if op in ('+=', '-=', '*=', '/=', '=', '++', '--'): return s.kind(f, c[0])
            r = co(kname(sp), name or '')
            if r: return r
            if name == 'operator*' and len(c) == 1:
                r = s.member(f, c[0])
                if r: return r
            if (name in ('operator[]', 'front', 'back', 'top', 'at', 'operator*')) and c: return s.elt_of(f, c[0])
            return None
        return None

def bounded(f, n):
    """(loop variable, sense) of a loop from 0 to a number of things"""
    c = lib.unwrap(n['c'][1]) if len(n['c']) > 1 and n['c'][1] is not None else None
    if c is None or c['k'] != 'Bin' or c['op'] not in ('<', '!='): return None
    v, b = unwrap(c['c'][0]), unwrap(c['c'][1])
    if v is None or b is None or v['k'] != 'Ref' or v.get('dk') != 'local' or b['k'] != 'Call' or b.get('n') not in COUNTS or 'atlas::' not in b.get('q', ''): return None
    if not re.match(r'^(unsigned|unsigned (int|short|char|long))$', base(f['u'].types[v['t']][1])): return None
    if kname(f['u'].types[v['t']][0]): return None
    return v['d'], COUNTS[b['n']]

def zero(n):
    n = unwrap(n)
    return n is not None and n['k'] in ('Lit', 'Int') 

def check(ctx):
    P = ctx.prog(); K = Kinds(P)
    B = collections.defaultdict(lambda: collections.defaultdict(list))
    seen = set()
    def flow(f, n, a, b, what, src=None, dst=None):
        if not a or not b or a[0] != b[0]: return
        ctx.count('flows')
        if a[1] == 'bit' and b[1] not in ('RootNbr', 'KGBElt', 'BlockElt', 'InvolutionNbr', 'CartanNbr') or b[1] == 'bit': return
        if a == b or (a, b) in EMBED or (b, a) in EMBED and what == 'compares': return
        G, R = ('n', 'Generator'), ('n', 'RootNbr')
        if {a, b} == {G, R}:
            if a == R and src is not None and unwrap(src)['k'] == 'Ref': return       # a root known to be simple
            if dst is not None and b == R and not K.strong(f, dst): return
            if a == R and (what != 'passes' or is_interp(f)): return
            if what == 'assigns' and a == G and dst is not None and unwrap(dst).get('dk') == 'parm': return
        if what != 'passes' and {a, b} == {('n', 'KGBElt'), ('n', 'dual KGBElt')} and any(z is not None and unwrap(z)['k'] == 'Call' and unwrap(z).get('n') not in ('x', 'y') for z in (src, dst)): return
        key = 'kind:%s:%s:%s' % (nm(f), a[1], b[1])
        if key in seen: return
        seen.add(key)
        ctx.violation(key, loc(f, n), '%s %s a %s where a %s belongs' % (nm(f), what, say(a), say(b)))
    for i, f in P.fns.items():
        u = f['u']
        interp = is_interp(f)
        ctx.count('functions')
        rk = RET.get(f.get('n')) or co(kname(u.types[f['ret']][0]), f.get('n', '')) if 'ret' in f else None
        for n in fn_nodes(f):
            k = n['k']
            if k == 'Var' and n.get('i') is not None:
                d = kname(u.types[n['t']][0])
                a = K.kind(f, n['i'])
                if d == ('v', 'C') and a == ('v', 'W'): flow(f, n, a, d, 'initialises with', n['i'])
                if d and d[0] == 'n': flow(f, n, K.kind(f, n['i']), d, 'initialises with', n['i'])
            elif k == 'Bin' and n['op'] in ('=', '==', '!=', '<', '>', '<=', '>='):
                a, b = K.kind(f, n['c'][1]), K.kind(f, n['c'][0])
                flow(f, n, a, b, 'assigns' if n['op'] == '=' else 'compares', n['c'][1], n['c'][0])
                if n['op'] in ('<', '<=', '!='):
                    bd = bound(f, n['c'][1])
                    if bd and b and b[0] == 'n' and K.strong(f, n['c'][0]) or bd and b and b[1] not in ('RootNbr', 'Generator'): B[('bound', bd)][b].append((f, n))
            elif k == 'Call' and n.get('n') in ('add', 'subtract') and n.get('m') and len(n['c']) > 1 and n['c'][1]:
                flow(f, n, K.kind(f, n['c'][1]), K.kind(f, n['c'][0]), 'adds', n['c'][1], n['c'][0])
            elif k == 'Call' and n.get('op') in ('=', '==', '!=', '+', '-', '+=', '-=') and len(n['c']) == 2 and n['c'][0] and n['c'][1]:
                a, b = K.kind(f, n['c'][1]), K.kind(f, n['c'][0])
                if a and b and a[0] == 'v': flow(f, n, a, b, {'=': 'assigns', '==': 'compares', '!=': 'compares'}.get(n['op'], 'adds'), n['c'][1], n['c'][0])
            elif k == 'Return' and n.get('c') and n['c'][0] is not None and n.get('inlam') is None:
                flow(f, n, K.kind(f, n['c'][0]), rk, 'returns', n['c'][0])
            if k == 'Call' and n.get('n') in PAIR and n.get('c') and len(n['c']) >= 2:
                c = [x for x in n['c'] if x]
                a, b = K.kind(f, c[0]), K.kind(f, c[1]) if len(c) > 1 else None
                if a and b and a[0] == b[0] == 'v' and f.get('n') not in BOTH:
                    ctx.count('pairings')
                    if a == b: ctx.violation('pair:%s:%s' % (nm(f), a[1]), loc(f, n), '%s pairs two vectors of the %s side' % (nm(f), say(a)))
            if k in ('Call', 'Con') and n.get('fn') in P.fns:
                g = P.fns[n['fn']]; c = list(n.get('c', ()))
                if NEUTRAL.search(strip(g['q'])): continue
                if k == 'Call' and (n.get('m') or n.get('om')): c = c[1:]
                for x, p in zip(c, g['params']):
                    if x is None: continue
                    a = K.kind(f, x)
                    b = co(kname(g['u'].types[p['t']][0]), p['n'])
                    if b and b[0] == 'v' and g.get('n') in PARM: b = PARM[g['n']]
                    if b and b[0] == 'v' and g.get('n') in BOTH: continue
                    if a and b == ('n', 'RootNbr') and a == ('n', 'Generator') and g.get('n') in POS: continue
                    if {a, b} == {('n', 'KGBElt'), ('n', 'dual KGBElt')}:
                        # one KGB element is handed to operations of either group; two must not be exchanged
                        both = {co(kname(g['u'].types[z['t']][0]), z['n']) for z in g['params']}
                        if not {a, b} <= both or 'dual' in f.get('n', ''): continue
                    flow(f, n, a, b, 'passes', x)
                    if a and b is None and a[0] == 'n' and a[1] != 'bit' and K.strong(f, x) and not interp: B[('arg', nm(g) + ' ' + p['n'])][a].append((f, n))
            # indices
            if k == 'Sub' or k == 'Call' and n.get('op') == '[]' and len(n.get('c', ())) == 2:
                o = unwrap(n['c'][0])
                if o['k'] == 'Mem' and o.get('fld') or o['k'] == 'Ref' and o.get('dk') == 'local':
                    a = K.kind(f, n['c'][1])
                    if a and a[0] == 'n' and a[1] != 'bit' and K.strong(f, n['c'][1]):
                        key = ('field', strip(o.get('q', o['n']))) if o['k'] == 'Mem' else ('local', (i, o['d'], o.get('n') or o.get('q')))
                        B[key][a].append((f, n))
    for key, M in B.items():
        if key[0] != 'local' and GENERIC.search(key[1]) or key[1] == 'atlas::interpreter::row_value::val': continue
        ctx.count('inferred_senses')
        if len(M) < 2 or any(set(M) <= x for x in SAME): continue
        best = max(M, key=lambda k: len(M[k]))
        for a, sites in M.items():
            if a == best or {a, best} in SAME: continue
            f, n = sites[0]
            what = {'field': 'indexes', 'local': 'indexes', 'bound': 'bounds', 'arg': 'passes to'}[key[0]]
            ctx.violation('sense:%s:%s' % (nm(f), a[1]), loc(f, n), '%s %s %s with a %s; elsewhere it is used for a %s (%s)' % (nm(f), what, key[1] if key[0] != 'local' else key[1][2], say(a), say(best), loc(*M[best][0])))
    ctx.floor('functions', 2000); ctx.floor('flows', 3000)

def bound(f, n):
    n = unwrap(n)
    if n is None: return None
    if n['k'] == 'Call' and n.get('m') and len([x for x in n['c'] if x]) == 1:
        q = strip(n.get('q', ''))
        if q.startswith('std::') or 'containers::' in q:
            if n.get('n') != 'size': return None
            o = unwrap(n['c'][0])
            return strip(o.get('q', o['n'])) + '.size' if o['k'] == 'Mem' and o.get('fld') else None
        if 'atlas::bitmap' in q or 'Vector' in q or 'atrix' in q: return None
        return q
    return None
