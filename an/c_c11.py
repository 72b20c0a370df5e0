"""C11: comparison operators, orderings and hash codes are mutually consistent and see every component."""
import re
from src import walk, fn_nodes, children
from prog import strip, bare
import lib, exchange
from relcmp import A, B, decide, Table, check_equality, check_order, check_direction, Undecided, Mismatch, show

EXPLANATION = ('Every two-operand ==, !=, < and comparison function object of the library, and every comparison passed to a sorting or '
               'searching routine, is decided by enumerating all outcomes (smaller, equal, larger) of the corresponding projections of its two '
               'operands; the fields read are compared with the fields of the class, with the sibling operators and with the hash function.')
RULE = ('== yields true exactly when all projections are equal, != exactly otherwise, < and other orderings are irreflexive, asymmetric and '
        'transitive and distinguish operands that differ in a compared projection; < goes in the direction of its projections; both operands are seen through the same projections; loops over '
        'components visit all positions; every non-derived data member takes part; the hash code reads only members that equality compares.')
ASSUMPTIONS = ['members listed as derived are functions of the other members (table DERIVED, with reasons)',
               'comparisons of standard containers and built-in types behave as specified']

# data members that need not take part in equality / ordering, with the reason
DERIVED = {
 'atlas::bitmap::BitMap': {'d_capacity': 'only bitmaps of the same capacity are compared'},
 'atlas::bitvector::BitVector': {'d_size': 'only vectors of the same size are compared'},
 'atlas::repr::StandardRepr': {'hght': 'function of the other members'},
 'atlas::standardrepk::StandardRepK': {'d_status': 'memo of properties of the other members'},
 'atlas::kgb::KGB_elt_entry': {'t_rep': 'chosen representative of the class that the fingerprint identifies'},
 'atlas::partition::Partition': {'d_classRep': 'function of d_class'},
 'atlas::abelian::FiniteAbelianGroup': {'d_size': 'product of d_type', 'd_cotype': 'quotients of d_type'},
 'atlas::blocks::Block_base::EltInfo': {'descent': 'function of x and y in a block', 'length': 'function of x and y in a block'},
 'atlas::ext_block::ext_block::elt_info': {'flips': 'attribute of the element z'},
 'atlas::realredgp::RealReductiveGroup': {'d_realForm': 'determined by the strong involution compared', 'dual_pi0_gens': 'function of the real form',
    'd_Tg': 'owned table derived from the base grading', 'kgb_ptr': 'owned structure built on demand', 'd_status': 'function of the real form'},
 'atlas::subsystem::integral_datum_entry': None,      # identified by its root set alone
 'atlas::kl::Mu_pair': None,                          # keyed by x; used for ordering only
}

# multi-digit two's complement numbers: among negative ones the longer is the smaller
NUMERIC = {'atlas::arithmetic::big_int::operator<'}
# documented to order by decreasing x, and (arbitrarily) by decreasing infinitesimal character
REVERSED = {'atlas::repr::StandardRepr::operator<': [r'^a\.x_part$', 'infinitesimal_char']}

def sig(f):
    return bool(f.get('cls')) and not f.get('smeth')

def operand_types(f):
    u = f['u']; ps = [bare(u.types[p['t']][1]) for p in f['params']]
    if sig(f): return (f['cls'] and None, ps[0]) if f['n'] != 'operator()' and len(ps) == 1 else tuple(ps)
    return tuple(ps)

def run_fn(P, f):
    m = sig(f) and f['n'] != 'operator()'
    ps = f['params']
    def run(e):
        env = {}
        if m: env['this'] = ('val', A); env[ps[0]['d']] = ('val', B)
        else:
            if sig(f): env['this'] = ('val', ('self',))
            env[ps[0]['d']] = ('val', A); env[ps[1]['d']] = ('val', B)
        return e.run(f, env)
    return decide(P, run)

SORTERS = re.compile(r'^(std::(sort|stable_sort|lower_bound|upper_bound|equal_range|binary_search|merge|inplace_merge|set_\w+|includes|min_element|max_element|'
                     r'minmax_element|nth_element|partial_sort|make_heap|push_heap|pop_heap|sort_heap|is_sorted|is_sorted_until|min|max|next_permutation|lexicographical_compare)|'
                     r'atlas::containers::(sl_list|simple_list)(<.*>)?::(sort|merge|remove_adjacent|unique)|atlas::permutations::standardization|atlas::permutations::standardize.*)$')
EQUALS = re.compile(r'^std::(unique|unique_copy|adjacent_find)$|::(unique)$')

class Checker:
    def __init__(self, ctx):
        self.ctx = ctx; self.P = ctx.prog(); self.res = {}
        # classes by name
        self.cls = self.P.classes
    def all_fields(self, q):
        out = {}
        c = self.cls.get(q)
        if not c: return out
        for b, _ in c.get('bases', ()):
            out.update(self.all_fields(b))
        for fl in c['fields']: out[fl['n']] = fl
        return out
    def one(self, f, kind, what):
        """decide comparison f; kind 'eq','ne','lt'"""
        ctx = self.ctx; u = f['u']; nm = what
        try:
            lv, fields, mems = run_fn(self.P, f) if 'run' not in f else decide(self.P, f['run'])
            loops = list(decide.loops)
            tab = Table(lv)
        except Mismatch as x:
            l = u.loc(x.node) if x.node and 'l' in x.node else u.loc(f)
            ctx.violation(nm + ':mismatch', l, '%s: %s' % (nm, x.msg)); ctx.count('comparisons_decided'); return None
        except Undecided as x:
            ctx.undecided('%s %s: %s' % (u.loc(f), nm, str(x)[:120])); return None
        ctx.count('comparisons_decided'); ctx.count('outcome_combinations', len(lv))
        for c, s in loops:
            if c not in ('ok', 'unknown'): ctx.violation(nm + ':loop', u.loc(s), '%s does not compare all components: %s' % (nm, c))
            elif c == 'unknown': ctx.undecided('%s loop of unrecognised form' % u.loc(s))
            else: ctx.count('component_loops')
        try: r = {'eq': lambda: check_equality(tab, True), 'ne': lambda: check_equality(tab, False), 'lt': lambda: check_order(tab)}[kind]()
        except Undecided as x: ctx.undecided('%s %s: %s' % (u.loc(f), nm, x)); return None
        if r: ctx.violation(nm + ':' + kind, u.loc(f), '%s is not %s: it %s' % (nm, {'eq': 'an equality', 'ne': 'an inequality', 'lt': 'a strict ordering'}[kind],
                                                                             r if r.startswith('yields') else 'is ' + r if r.startswith('not') else r))
        if not r and f.get('n') == 'operator<':
            ctx.count('order_directions')
            r = check_direction(tab, strip(f['q']) in NUMERIC, REVERSED.get(strip(f['q']), ()))
            if r: ctx.violation(nm + ':direction', u.loc(f), '%s orders the wrong way round: it %s' % (nm, r))
        for x, size, n in mems:
            ctx.count('memory_comparisons')
            a = lib.unwrap(n['c'][0]); T = u.types[a['t']][1]
            if size[0] == 'sizeof':
                if bare(size[1]) != bare(T): ctx.violation(nm + ':memcmp', u.loc(n), '%s: memory comparison of %s uses the size of %s' % (nm, T, size[1]))
            elif size[0] == '#':
                m = re.search(r'\[(\d+)\]$', T)
                if m and int(m.group(1)) != size[1] and re.match(r'(const )?(unsigned |signed )?char', T): ctx.violation(nm + ':memcmp', u.loc(n), '%s: memory comparison covers %d of %s bytes' % (nm, size[1], m.group(1)))
        top = {b for a, b in fields if a == A}
        if not tab.rels and not tab.preds: ctx.undecided('%s %s: no projection found' % (u.loc(f), nm))
        ctx.sample('%s: %s' % (nm, [show(k[1]) for k in tab.rels]))
        return top

def check(ctx):
    C = Checker(ctx); P = C.P
    complex_eq = {}
    per = {}          # class -> {'==': (fields, f), ...}
    done = set()
    for i, f in P.fns.items():
        if lib.is_interp(f) or f.get('defaulted'): continue
        n = f['n']; u = f['u']
        if n not in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'compare', 'operator()'): continue
        m = sig(f) and n != 'operator()'
        if len(f['params']) != (1 if m else 2): continue
        T = [bare(u.types[p['t']][1]) for p in f['params']]
        cls = canon(f['cls']) if m else T[0]
        if m:
            if canon(T[0]) != cls and not related(C, f['cls'], T[0]): continue
        elif T[0] != T[1]: continue
        if n in ('operator()', 'compare') and u.types[f['ret']][1] != 'bool': continue
        key = u.loc(f)
        if key in done: continue
        done.add(key)
        kind = {'operator==': 'eq', 'operator!=': 'ne'}.get(n, 'lt')
        if n in ('operator<=', 'operator>='):
            continue    # partial orders of other kinds
        name = lib.nm(f)
        fl = C.one(f, kind, name)
        if n != 'operator()':
            ps = [p['d'] for p in f['params']]
            if m and T[0] == cls or not m: exchange.check_fn(ctx, P, f, kind, None if m else ps[0], ps[-1], common(C, f['cls']) if m else ())
        if fl is None:
            if kind != 'lt' and m: complex_eq[f['cls']] = (f, ps[-1])
            continue
        per.setdefault(strip(f['cls'] if m else T[0]), {})[n] = (fl, f, f['cls'] if m else T[0])
    # field coverage
    for cls, ops in sorted(per.items()):
        if cls.startswith('std::'): continue
        eq = [ops[o] for o in ('operator==', 'operator!=') if o in ops]
        for fl, f, full in eq:
            allf = C.all_fields(full) or C.all_fields(canonq(C, full))
            der = DERIVED.get(cls, {})
            if der is None or not allf or not fl: continue
            if is_iterator(cls): continue
            ctx.count('member_coverage_checks')
            for x, info in allf.items():
                if x in fl or x in der: continue
                if info_derived(cls, x): continue
                ctx.violation('%s:%s' % (lib.nm(f), x), f['u'].loc(f), '%s ignores data member %s, so values that differ there are taken to be equal' % (lib.nm(f), x))
        if len(eq) == 2 and eq[0][0] != eq[1][0]:
            ctx.violation(cls + ':eq-ne', eq[1][1]['u'].loc(eq[1][1]), '== and != of %s look at different members: %s against %s' % (cls, sorted(eq[0][0]), sorted(eq[1][0])))
        if eq and 'operator<' in ops:
            d = eq[0][0] - ops['operator<'][0]
            ctx.count('order_equality_pairs')
            if d and ops['operator<'][0]:
                f = ops['operator<'][1]
                ctx.violation(cls + ':lt-eq', f['u'].loc(f), 'ordering of %s ignores %s, which == compares: unequal values are equivalent for the ordering' % (cls, sorted(d)))
    # comparisons passed to sorting and searching
    for i, f in lib.lib_fns(P):
        u = f['u']
        for n in fn_nodes(f):
            if n['k'] != 'Call' or not n.get('q'): continue
            q = strip(n['q'])
            lt = SORTERS.match(q); eq = EQUALS.search(q)
            if not lt and not eq: continue
            for a in n['c']:
                a = lib.unwrap(a)
                while a is not None and a['k'] == 'Con' and len(a.get('c', ())) == 1: a = lib.unwrap(a['c'][0])
                if a is None or a['k'] != 'Lambda' or len(a['params']) != 2: continue
                T = [bare(u.types[p['t']][1]) for p in a['params']]
                if T[0] != T[1]: ctx.count('heterogeneous_searches'); continue
                ctx.count('comparison_lambdas')
                def run(e, a=a):
                    env = {a['params'][0]['d']: ('val', A), a['params'][1]['d']: ('val', B), 'this': ('val', ('self',))}
                    r = e.block(a['c'][0], env, u)
                    if not r or r[0] != 'ret': raise Undecided('no return')
                    return r[1]
                g = {'u': u, 'run': run, 'l': a['l'], 'f': a.get('f')}
                C.one(g, 'eq' if eq else 'lt', lib.nm(f) + ':comparison passed to ' + q.split('::')[-1])
    hashes(ctx, C, per)
    for i, f in P.fns.items():
        if f['n'] == 'hashCode' and f.get('cls') in complex_eq: exchange.check_hash(ctx, P, f, complex_eq[f['cls']][0], None, complex_eq[f['cls']][1], common(C, f['cls']))
    ctx.floor('comparisons_decided', 70); ctx.floor('member_coverage_checks', 25); ctx.floor('hash_functions', 10); ctx.floor('comparison_lambdas', 3)
    ctx.floor('component_loops', 6); ctx.floor('memory_comparisons', 1); ctx.floor('order_equality_pairs', 8)

def common(C, cls):
    """members that refer to something that all values compared have in common"""
    R = set(); w = [cls]
    while w:
        c = C.cls.get(w.pop())
        if not c: continue
        w += [b for b, _ in c.get('bases', ())]
        R |= {fl['n'] for fl in c['fields'] if any(str(x).endswith('&') for x in c['u'].types[fl['t']][:2])}
    return R
def canon(q): return q
def canonq(C, q):
    for k in C.cls:
        if k == q: return k
    return q
def related(C, cls, T):
    """parameter type denotes the class itself or one of its bases"""
    s = strip(cls)
    if strip(T) == s: return True
    seen = set(); w = [cls]
    while w:
        x = w.pop()
        if strip(x) == strip(T): return True
        if x in seen: continue
        seen.add(x); w.extend(b for b, _ in (C.cls.get(x) or {}).get('bases', ()))
    return False
def is_iterator(cls):
    return bool(re.search(r'[iI]terator$', cls))
def info_derived(cls, x): return False

def hashes(ctx, C, per):
    """every hash code reads only members that the equality of the entry compares"""
    P = C.P
    E = lib.lib_effects(P)
    for i, f in P.fns.items():
        if f['n'] != 'hashCode' or not f.get('cls') or lib.is_interp(f): continue
        cls = strip(f['cls']); u = f['u']
        ctx.count('hash_functions')
        fi = E.info.get(i)
        if fi is None: continue
        read = {p[1] for p in fi.R if p[0] == 'this' and len(p) > 1 and isinstance(p[1], str)}
        read = {x for x in read if x not in ('*', '[]')}
        # members that the accessors called may read
        allf = C.all_fields(f['cls'])
        read &= set(allf) | read
        eq = None; w = [f['cls']]
        while w and eq is None:
            x = w.pop(0)
            for o in ('operator!=', 'operator=='):
                if o in per.get(strip(x), {}): eq = per[strip(x)][o][0]; break
            w.extend(b for b, _ in (C.cls.get(x) or {}).get('bases', ()))
        if eq is None:
            ctx.undecided('%s hash of %s: its equality is undecided' % (u.loc(f), cls)); continue
        if not eq: continue
        ctx.count('hash_equality_pairs')
        for x in sorted(read - eq):
            if x not in allf: continue
            ctx.violation('%s:hash:%s' % (cls, x), u.loc(f), 'hash code of %s depends on member %s, which its equality ignores: equal values may have different hash codes' % (cls, x))
        for n in fn_nodes(f):
            if n['k'] in ('Cast', 'ICast') and n.get('ck') in ('PointerToIntegral',):
                ctx.violation('%s:hash:ptr' % cls, u.loc(n), 'hash code of %s uses an address' % cls)
