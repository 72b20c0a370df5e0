"""C23: dual constructions and dual operations mirror their counterparts."""
import re
from src import walk, children, fn_nodes
import lib
from lib import lib_fns, nm, loc, unwrap

EXPLANATION = ('The duality between roots and coroots, weights and coweights, real forms and dual real forms (and so on) is an involution on the names of data members. For every constructor of a dual object '
               'each member is traced to the member of the original it comes from; for every pair of operations that are each other\'s duals the data they read, write and refer to (through all callees) are compared.')
RULE = ('In a dual object every member with a dual counterpart is made from that counterpart of the original; of every pair of dual operations, one reads, writes and returns references to exactly the duals '
        'of what the other one does; what an operation on the dual side is called with, or the order of its operations, is not compared.')
ASSUMPTIONS = ['operations whose names differ only in dual, co- and the like are each other\'s duals, except those listed as not being so']
D = [('d_roots', 'd_coroots'), ('weight_numer', 'coweight_numer'), ('d_radicalBasis', 'd_coradicalBasis'), ('d_2rho', 'd_dual_2rho'), ('root_ladder_bot', 'coroot_ladder_bot'),
     ('d_fundamental', 'd_dualFundamental'), ('d_Tits_group', 'd_dualTitsGroup'), ('real_forms', 'dual_real_forms'), ('rep', 'dual_rep'), ('simple_roots', 'simple_coroots'), ('own_datum', 'own_dual_datum'),
     ('root', 'coroot'), ('root', 'dual'), ('real_labels', 'dual_real_labels'), ('d_simpleRoot', 'd_simpleCoroot'), ('d_cotype', 'd_type'), ('Cfiber', 'dual_fiber'),
     ('d_fiber', 'd_dualFiber'), ('fiber', 'dualFiber')]
CURRENT = {'dual_G_R_pointer': 'G_R_pointer', 'dual_ic_pointer': 'ic_pointer', 'G_R_pointer': 'dual_G_R_pointer', 'ic_pointer': 'dual_ic_pointer'}      # the two groups Fokko works with
DUAL = {}
for a, b in D: DUAL.setdefault(a, b); DUAL[b] = a
SIDES = {'d_rootDatum', 'd_dualRootDatum'}      # the dual root datum has the roles of its members exchanged
NEGATED = {'prefer_co'}; TRANSPOSED = {'invCmat'}
SWAPS = [('coroot', 'root'), ('Coroot', 'Root'), ('coweight', 'weight'), ('Coradical', 'Radical'), ('codominant', 'dominant'), ('dual_', ''), ('Dual', ''), ('dual', ''), ('SimplyConnected', 'Adjoint'),
         ('coreflect', 'reflect'), ('colevel', 'level'), ('cotype', 'type'), ('CoRoots', 'Roots')]
# names that look dual but are not, and operations that reach their dual counterpart by other means
UNPAIRED = {'twisted', 'dual_twisted', 'dual_twist', 'map_dual_real_forms', 'dual_sample_torus_part', 'realWeylSize', 'dualRealWeylSize', 'dualrealform_f', 'realform_f', 'dualblock_f', 'block_f', 'dualkgb_f', 'kgb_f',
            'smalldualblock_f', 'smallblock_f', 'smalldualkgb_f', 'smallkgb_f', 'current_dual_inner_class', 'get_dual_real_form', 'dual_KL_tab', 'dualRealFormInterface', 'cotype',
            'fundamental_dual_fiber', 'dual_image_by'}

def key(p):
    """the part of a path up to its last component with a dual; None when there is none"""
    q = [x if isinstance(x, str) else x[1].split('::')[-1] if x[0] == 'g' else '' for x in p]
    flip = False; out = []; last = -1
    for j, x in enumerate(q):
        if x in SIDES:
            if x == 'd_dualRootDatum': flip = not flip
            out.append('<datum>'); last = j if x == 'd_dualRootDatum' and False else last
            continue
        if x in CURRENT: last = j
        if x in DUAL:
            x = DUAL[x] if flip else x; last = j
        out.append('p' if x in ('p0', 'p1', 'p2') and j == 0 else x)
    return tuple('root*' if x in ('root',) else 'dual*' if x in ('dual', 'coroot') else x for x in out[:last + 1]) if last >= 0 else None
BARE = {'root*': 'dual*', 'dual*': 'root*'}
def mirror(k, current): return tuple(BARE.get(x) or (CURRENT.get(x, x) if current else x) if x not in DUAL else DUAL[x] for x in k)

def cands(n):
    out = set()
    for a, b in SWAPS:
        for m in re.finditer(re.escape(a), n): out.add(n[:m.start()] + b + n[m.end():])
        out.add(n.replace(a, b))
    m = re.match(r'dual([A-Z])(.*)', n)
    if m: out.add(m.group(1).lower() + m.group(2))
    out.discard(n); return out

def field(n):
    """(name of the data member an expression denotes, base) through conversions and copies"""
    n = unwrap(n)
    while n is not None and n['k'] == 'Con' and len([c for c in n['c'] if c is not None and c['k'] != 'DefArg']) == 1 and (n.get('cp') or n.get('mv')): n = unwrap(n['c'][0])
    if n is not None and n['k'] == 'Mem' and n.get('fld'): return n
    return None

def check(ctx):
    P = ctx.prog(); E = lib.lib_effects(P)
    names = {}
    for i, f in lib_fns(P): names.setdefault(nm(f), []).append(f)
    # constructors of dual objects
    for i, f in lib_fns(P):
        tags = [p for p in f['params'] if 'DualTag' in f['u'].types[p['t']][1]]
        if not tags or not f.get('ctor', f.get('inits') is not None) or not f.get('cls'): continue
        if not f.get('inits'): continue
        ctx.count('constructors of dual objects')
        src = f['params'][0]; set_ = {}
        if bare_class(f['u'].types[src['t']][1]) != bare_class('::'.join(f['q'].split('::')[:-1])): continue
        def given(m, e, n):
            x = field(e)
            e0 = unwrap(e)
            while e0 is not None and e0['k'] == 'Con' and len(e0['c']) == 1: e0 = unwrap(e0['c'][0])
            if m in NEGATED:
                ctx.count('members of dual objects')
                if not any(y['k'] == 'Un' and y['op'] == '!' for y in walk(e)): ctx.violation('negated:%s:%s' % (nm(f), m), loc(f, n), '%s does not negate %s' % (nm(f), m))
                return
            if m in TRANSPOSED:
                ctx.count('members of dual objects')
                if not any(y['k'] == 'Call' and 'transpose' in (y.get('n') or '') for y in walk(e)): ctx.violation('transposed:%s:%s' % (nm(f), m), loc(f, n), '%s does not transpose %s' % (nm(f), m))
                return
            S = {y['n'] for y in walk(e) if y['k'] == 'Mem' and y.get('fld') and y.get('c') and from_source(y, src)}
            want = 'd_dualRootDatum' if m == 'd_rootDatum' else 'd_rootDatum' if m == 'd_dualRootDatum' else DUAL.get(m, m)
            if m == 'root' : want = 'coroot'
            if S and (m in DUAL or m in SIDES or S & (set(DUAL) | SIDES)):
                ctx.count('members of dual objects'); set_[m] = 1
                if want not in S:
                    ctx.violation('member:%s:%s' % (nm(f), m), loc(f, n), '%s makes %s from %s of the original rather than from %s' % (nm(f), m, '/'.join(sorted(S)), want))
        for it in f['inits']:
            m = it.get('n') or it.get('m') or it.get('fld')
            if m and it.get('e') is not None: given(m, it['e'], it if 'l' in it else f)
        for n in fn_nodes(f):
            if (n['k'] == 'Bin' and n['op'] == '=' or n['k'] == 'Call' and n.get('op') == '=') and len(n['c']) == 2:
                a, b = field(n['c'][0]), field(n['c'][1])
                if a is not None and b is not None and (a['n'] in DUAL or b['n'] in DUAL):
                    ctx.count('members of dual objects'); set_[a['n']] = 1
                    if DUAL.get(a['n'], a['n']) != b['n'] and not from_same(a, b):
                        ctx.violation('member:%s:%s' % (nm(f), a['n']), loc(f, n), '%s makes %s from %s of the original rather than from %s' % (nm(f), a['n'], b['n'], DUAL.get(a['n'], a['n'])))
    # pairs of dual operations
    done = set()
    for n in sorted(names):
        p, _, s = n.rpartition('::')
        for c in cands(s):
            o = p + '::' + c
            if o not in names or frozenset((n, o)) in done or s in UNPAIRED or c in UNPAIRED: continue
            done.add(frozenset((n, o)))
            for f in names[n]:
                best = None
                for g in names[o]:
                    if len(f['params']) != len(g['params']): continue
                    x, y = E.info[f['id']], E.info[g['id']]
                    for current in (False, True):
                        d = []
                        for k in ('R', 'W', 'rl', 'rp'):
                            A = {mirror(z, current) for z in map(key, getattr(x, k)) if z}; B = {z for z in map(key, getattr(y, k)) if z}
                            d += [(k, z, 'reads' if k == 'R' else 'writes' if k == 'W' else 'refers to') for z in sorted(A ^ B)]
                        if best is None or len(d) < len(best[0]): best = (d, g)
                if best is None: continue
                ctx.count('pairs of dual operations')
                if best[0]:
                    k, z, verb = best[0][0]
                    ctx.violation('pair:%s:%s' % (n, c), loc(f), '%s and %s are not each other\'s mirror image: only one of them %s the mirror image of what the other does (%s)' % (n, c, verb, '.'.join(z)))
    ctx.floor('pairs of dual operations', 50); ctx.floor('constructors of dual objects', 4); ctx.floor('members of dual objects', 20)

def bare_class(t): return re.sub(r'[&*]|\bconst\b|<.*>', '', t).strip().split('::')[-1].strip()
def from_source(m, src):
    x = m
    while x is not None and x['k'] == 'Mem': x = unwrap(x['c'][0]) if x.get('c') else None
    return x is not None and x['k'] == 'Ref' and x.get('d') == src['d']
def from_same(a, b):
    """both members belong to the same object"""
    x, y = unwrap(a['c'][0]), unwrap(b['c'][0])
    return x['k'] == y['k'] and x.get('d') == y.get('d')
