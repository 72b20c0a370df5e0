"""C13: copying, moving, assigning and swapping carry the whole value; owned resources are never shared."""
import re
import src
from src import walk, fn_nodes, children
from prog import strip, bare
import lib

EXPLANATION = ('Every hand-written copy or move constructor, assignment operator and swap of a library class is analysed member by member; every class whose '
               'destructor releases a resource is checked for the special members it needs and for uses of compiler-generated copies; '
               'self-assignment is decided by order of destruction and reading.')
RULE = ('Each non-static data member receives a value computed from the source object, never directly from a different member of the same type; base subobjects are '
        'initialised from the source; swap writes both sides; an owned pointer is not copied without being cleared in the source; '
        'a class with an owning pointer has its own copy operations or no non-elidable copies; nothing of the source is read after the target was destroyed unless self-assignment was excluded.')
ASSUMPTIONS = ['compiler-generated copy and move operations are memberwise', 'members in the cache table may be rebuilt instead of copied']

# members that are caches, deliberately rebuilt by the copy
CACHES = {('Block_base', m) for m in ('partial_Hasse_diagram', 'd_bruhat', 'dual_ptr', 'KL_P_ptr', 'KL_Q_ptr')}

def short(c): return strip(c).split('::')[-1]

def special(P, f):
    u = f['u']; c = f.get('cls')
    if not c or f.get('defaulted') or f.get('imp'): return None
    if f.get('ctor') and len(f['params']) == 1 and bare(u.types[f['params'][0]['t']][1]) == c: 
        return 'move constructor' if u.types[f['params'][0]['t']][1].endswith('&&') else 'copy constructor'
    if f.get('ctor') and len(f['params']) == 1 and re.sub(r'(\d)U?L?\b', r'\1', bare(u.types[f['params'][0]['t']][1])) == c: return 'copy constructor'
    if f['n'] in ('operator=', 'swap') and len(f['params']) == 1 and strip(bare(u.types[f['params'][0]['t']][1])) == strip(c):
        return 'assignment' if f['n'] == 'operator=' else 'swap'
    return None

def mem_of(n, which):
    """n denotes member of object (which: None this, else set of declaration ids) -> member name"""
    n = lib.unwrap(n)
    while n is not None and (n['k'] == 'Sub' or n['k'] == 'Call' and n.get('op') in ('[]', '*', '->') or n['k'] == 'Un' and n['op'] in ('*',)): n = lib.unwrap(n['c'][0])
    if n is None or n['k'] != 'Mem': return None
    b = lib.unwrap(n['c'][0]) if n.get('c') else None
    if which is None:
        if b is None or b['k'] == 'This' or b['k'] == 'Un' and b['op'] == '*' and lib.unwrap(b['c'][0])['k'] == 'This': return n['n']
        return None
    while b is not None and b['k'] == 'Con' and len(b['c']) == 1: b = lib.unwrap(b['c'][0])
    if b is not None and b['k'] == 'Call' and b.get('n') in ('move', 'forward') and len(b['c']) >= 1: b = lib.unwrap(b['c'][-1])
    if b is not None and b['k'] == 'Ref' and b.get('d') in which: return n['n']
    return None

def direct(n):
    """strip copies, moves and parentheses"""
    n = lib.unwrap(n)
    while n is not None:
        if n['k'] == 'Con' and len(n['c']) == 1: n = lib.unwrap(n['c'][0]); continue
        if n['k'] == 'InitList' and len(n['c']) == 1: n = lib.unwrap(n['c'][0]); continue
        if n['k'] == 'Call' and n.get('n') in ('move', 'forward') and strip(n.get('q', '')).startswith('std::'): n = lib.unwrap(n['c'][-1]); continue
        return n
    return n

class Xfer:
    def __init__(s, P, f, kind, srcd, depth=0):
        s.P = P; s.f = f; s.u = f['u']; s.kind = kind
        s.got = set(); s.back = set(); s.mix = []; s.all = False; s.base = set(); s.raw = set(); s.cleared = set()
        s.src = set(srcd); s.alias = {}
        s.tmp = set()                      # locals that are complete copies of the source
        nodes = list(fn_nodes(f))
        s.taint = set(srcd)
        for _ in range(6):
            m = len(s.taint)
            for n in nodes:
                if n['k'] == 'Var' and n.get('i') is not None and s.reads(n['i']):
                    s.taint.add(n['d'])
                    if bare(s.u.types[n['t']][1]) == f['cls']: s.tmp.add(n['d'])
                if n['k'] == 'Range' and n.get('var') and any(s.reads(x) for x in children(n)): s.taint.add(n['var']['d'])
                if lib.is_assign(n):
                    l = lib.unwrap(n['c'][0])
                    if l is not None and l['k'] == 'Ref' and 'd' in l and s.reads(n['c'][1]): s.taint.add(l['d'])
            if len(s.taint) == m: break
        s.src |= s.tmp
        for i in f.get('inits', ()):
            if i.get('e') is None: continue
            if i.get('fld'):
                s.write(i['fld'], i['e'])
                d = direct(i['e'])
                if d is not None and d['k'] == 'Un' and d['op'] == '&' and mem_of(d['c'][0], None): s.alias[i['fld']] = mem_of(d['c'][0], None)
            elif i.get('base'):
                if s.reads(i['e']): s.base.add(i['base'])
            elif i.get('deleg'):
                if s.reads(i['e']): s.all = True
        for n in nodes: s.node(n, depth)
        for a, b in s.alias.items():
            # member b is filled in through member a, initialised to point to it
            if a in s.got: s.got.add(b)
    def reads(s, e):
        return any(x['k'] == 'Ref' and x.get('d') in s.taint for x in walk(e))
    def write(s, m, e):
        if not s.reads(e):
            return
        s.got.add(m)
        d = direct(e)
        o = mem_of(d, s.src) if d is not None and d['k'] == 'Mem' else None
        if o is not None:
            s.raw.add((m, o))
            if o != m: s.mix.append((m, o, e))
    def node(s, n, depth):
        if lib.is_assign(n) and n['c'][0] is not None:
            m = mem_of(n['c'][0], None)
            if m: s.write(m, n['c'][1])
            o = mem_of(n['c'][0], s.src)
            if o:
                s.back.add(o)
                r = direct(n['c'][1])
                if r is not None and (r['k'] in ('Null', 'Int', 'InitList') or not s.reads(r)): s.cleared.add(o)
            l = lib.unwrap(n['c'][0])
            if l is not None and l['k'] == 'Un' and l['op'] == '*' and lib.unwrap(l['c'][0])['k'] == 'This' and s.reads(n['c'][1]): s.all = True
        if n['k'] in ('Call', 'Con', 'New') :
            cs = [x for x in n.get('c', ()) if x is not None]
            if n['k'] == 'New' and any(lib.unwrap(x)['k'] == 'This' for x in cs) and s.reads(n): s.all = True
            if n['k'] == 'Call' and cs:
                mine = [mem_of(x, None) for x in cs]; theirs = [mem_of(x, s.src) for x in cs]
                isswap = n.get('n') == 'swap'
                for i, m in enumerate(mine):
                    if m is None: continue
                    others = [x for j, x in enumerate(cs) if j != i]
                    if any(s.reads(x) for x in others):
                        s.got.add(m)
                        if isswap:
                            for o in theirs:
                                if o is not None:
                                    s.back.add(o)
                                    if o != m: s.mix.append((m, o, n))
                for o in theirs:
                    if o is not None and n.get('n') in ('set_empty', 'release', 'reset', 'clear', 'exchange'): s.cleared.add(o); s.back.add(o)
                # iterator algorithms: std::copy(src.M.begin(), .., M.begin())
                for x in cs:
                    for y in walk(x):
                        m = mem_of(y, None) if y['k'] == 'Mem' else None
                        if m and n.get('n') in ('copy', 'move', 'swap_ranges', 'transform', 'memcpy', 'exchange', 'copy_n') and s.reads(n): s.got.add(m)
                # whole objects
                on = lib.unwrap(cs[0])
                this0 = on is not None and (on['k'] == 'This' or on['k'] == 'Un' and on['op'] == '*' and lib.unwrap(on['c'][0])['k'] == 'This')
                if this0 and any(s.reads(x) for x in cs[1:]):
                    q = strip(n.get('q', ''))
                    cls = q.rsplit('::', 1)[0]
                    if n.get('n') in ('swap', 'operator=', '='):
                        if cls == strip(s.f['cls']): s.all = True
                        else: s.base.add(cls)
                    elif n.get('fn') in s.P.fns and depth < 4 and n.get('m'):
                        g = s.P.fns[n['fn']]
                        rng = {x.get('n') for y in cs[1:] for x in walk(y) if x['k'] == 'Call' and x.get('m')}
                        if not g.get('const') and (rng & {'begin', 'wbegin', 'cbegin', 'wcbegin'}) and (rng & {'end', 'wend', 'cend', 'wcend'}) and cls == strip(s.f['cls']): s.all = True
                        pd = [p['d'] for p, x in zip(g['params'], cs[1:]) if s.reads(x)]
                        sub = Xfer(s.P, g, s.kind, pd, depth + 1)
                        s.got |= sub.got; s.back |= sub.back; s.mix += [(a, b, n) for a, b, _ in sub.mix]; s.all |= sub.all; s.base |= sub.base; s.cleared |= sub.cleared
                if not n.get('m') and n.get('n') == 'swap' and any(is_this(x) for x in cs) and s.reads(n): s.all = True

class Must:
    """members transferred on every path to a normal exit"""
    def __init__(s, P, f, x, fields):
        s.P = P; s.f = f; s.x = x; s.all = frozenset(fields); s.exits = []; s.where = {}
        o = s.flow(f['body'], frozenset(s.leafinits()))
        if o is not None: s.exits.append(o)
        s.missing = set()
        for e in s.exits: s.missing |= s.all - e
    def leafinits(s):
        return {i['fld'] for i in s.f.get('inits', ()) if i.get('fld') and i.get('e') is not None and s.x.reads(i['e'])}
    def leaf(s, st):
        x = s.x; sg, sa, sb, sm = x.got, x.all, x.back, x.mix
        x.got = set(); x.all = False; x.mix = []
        clear = False
        for n in walk(st):
            x.node(n, 0)
            if n['k'] == 'Call' and n.get('m') and n['n'] in ('clear', 'reset', 'set_empty', 'resize') and n['c'] and is_this(n['c'][0]): clear = True
        r = s.all if x.all else frozenset(x.got)
        for a, b in x.alias.items():
            if a in r: r = r | {b}
        x.got, x.all, x.back, x.mix = sg, sa, sb, sm
        return r, clear
    def flow(s, st, S, under=()):
        if st is None: return S
        k = st['k']
        if k == 'Block':
            for c in st['c']:
                S = s.flow(c, S, under)
                if S is None: return None
            return S
        if k == 'If':
            cond = st['c'][0]; a = st['c'][1] if len(st['c']) > 1 else None; b = st['c'][2] if len(st['c']) > 2 else None
            S = S | s.leaf(cond)[0]
            if s.selftest(cond) is not None:
                keep, drop = (a, b) if s.selftest(cond) else (b, a)
                o = s.flow(keep, S, under)
                return o
            if any('alloc' in str(x.get('n') or (x['k'] == 'Ref' and x.get('q')) or '').lower() for x in walk(cond)): return s.flow(a, S, under)
            A = s.flow(a, S, under + (cond,)); B = s.flow(b, S, under + (cond,))
            if A is None: return B
            if B is None: return A
            return A & B
        if k in ('For', 'While', 'Range', 'Do', 'Switch', 'Try', 'Case', 'Default', 'Label'):
            for c in st['c']:
                if c is not None and isinstance(c, dict): S = S | (s.flow(c, S, under) or frozenset())
            return S | s.leaf(st)[0]
        if k == 'Return':
            S = S | s.leaf(st)[0]; s.exits.append(S); return None
        if k == 'Throw': return None
        r, clear = s.leaf(st)
        if clear and any(s.x.reads(c) for c in under): r = s.all      # the source was found to be empty
        return S | r
    def selftest(s, cond):
        """True: holds when the objects differ; False: holds when they are the same; None: something else"""
        c = lib.unwrap(cond); neg = False
        while c is not None and c['k'] == 'Un' and c['op'] == '!': neg = not neg; c = lib.unwrap(c['c'][0])
        if c is None or c['k'] not in ('Bin', 'Call') or c.get('op') not in ('!=', '==') or len(c['c']) != 2: return None
        if not any(is_thisptr(y) for y in c['c']): return None
        return (c['op'] == '!=') != neg

def is_this(x):
    x = lib.unwrap(x)
    return x is not None and (x['k'] == 'This' or x['k'] == 'Un' and x['op'] == '*' and lib.unwrap(x['c'][0])['k'] == 'This')

def owned(P, cls_fns):
    """members deleted by the destructor"""
    out = set()
    for f in cls_fns:
        if f.get('dtor'):
            for n in fn_nodes(f):
                if n['k'] == 'Delete':
                    m = mem_of(n['c'][0], None)
                    if m: out.add(m)
                    else: out.add('*')
    return out

def iterates(f):
    """the assignment walks both sequences from their beginnings, so contents are copied element by element"""
    mine = theirs = False
    for n in fn_nodes(f):
        if n['k'] == 'Call' and n.get('n') in ('begin', 'cbegin', 'wbegin', 'wcbegin') and n.get('c'):
            o = lib.unwrap(n['c'][0])
            while o is not None and o['k'] in ('ICast', 'Cast') : o = o['c'][0]
            if o is None: continue
            if o['k'] == 'This': mine = True
            elif o['k'] == 'Ref' and o.get('d') == f['params'][0]['d']: theirs = True
    return mine and theirs

def check(ctx):
    P = ctx.prog(src.all_units(src.copy_sources()) + [src.INSTANCES])
    bycls = {}
    for i, f in lib.lib_fns(P):
        if f.get('cls'): bycls.setdefault(f['cls'], []).append(f)
    owners = {}
    interior = interior_members(P, bycls)
    for q, fs in bycls.items():
        o = owned(P, fs)
        if o: owners[q] = o
    ctx.count('owning_classes', len(owners))
    for q, fs in sorted(bycls.items()):
        c = P.classes.get(q)
        if c is None: continue
        for f in fs:
            k = special(P, f)
            if k is None: continue
            u = f['u']
            ctx.count('special_members')
            x = Xfer(P, f, k, [f['params'][0]['d']])
            name = '%s of %s' % (k, short(q))
            byval = not u.types[f['params'][0]['t']][1].endswith('&')
            bypath = set()
            if not x.all:
                for m in c['fields']:
                    cu = c['u']; T = cu.types[m['t']][1]
                    if k in ('assignment', 'swap') and (T.endswith('&') or T.startswith('const ')): continue
                    if (short(q), m['n']) in CACHES: continue
                    ctx.count('members')
                    if m['n'] not in x.got and k == 'assignment' and iterates(f) and not re.fullmatch(r'(unsigned )?(int|long|short|char|bool)', T):
                        x.got.add(m['n']); bypath.add(m['n']); continue
                    if m['n'] not in x.got:
                        ctx.violation('%s:%s:%s' % (short(q), k, m['n']), u.loc(f), 'the %s does not transfer member %s' % (name, m['n']))
                    elif k == 'swap' and m['n'] not in x.back:
                        ctx.violation('%s:%s:%s:back' % (short(q), k, m['n']), u.loc(f), 'the %s does not give member %s to the other side' % (name, m['n']))
                    if m['n'] in owners.get(q, ()) and (m['n'], m['n']) in x.raw and k != 'swap' and m['n'] not in x.cleared and not T.startswith('std::unique_ptr'):
                        ctx.violation('%s:%s:%s:owned' % (short(q), k, m['n']), u.loc(f), 'the %s makes both objects own what member %s points to' % (name, m['n']))
                for b, acc in c.get('bases', ()):
                    bc = P.classes.get(b)
                    if bc is not None and not (bc['fields'] or bc['bases']): continue
                    if bc is None and not P.bases.get(b) and 'std::' not in b: continue
                    ctx.count('bases')
                    if not any(strip(b).split('::')[-1] == strip(y).split('::')[-1] for y in x.base):
                        # a base's own members may be transferred directly
                        if bc is not None and bc['fields'] and all(m['n'] in x.got for m in bc['fields']): continue
                        ctx.violation('%s:%s:base:%s' % (short(q), k, short(b)), u.loc(f), 'the %s does not transfer its base part %s' % (name, short(b)))
            for n in fn_nodes(f):
                if n['k'] == 'Call' and n.get('n') in ('memcpy', 'memmove', 'copy_n') and len(n['c']) == 3:
                    sz = n['c'][2] if n['n'] != 'copy_n' else n['c'][1]
                    for a in n['c']:
                        y = lib.unwrap(a)
                        while y is not None and y['k'] in ('ICast', 'Cast'): y = y['c'][0]
                        m = mem_of(y, None) if y is not None else None
                        t = next((c['u'].types[z['t']][1] for z in c['fields'] if z['n'] == m), '') if m else ''
                        mm = re.fullmatch(r'(?:unsigned |signed )?char ?\[(\d+)\]', t)
                        v = const_value(P, sz)
                        if mm and v is not None and v < int(mm.group(1)):
                            ctx.violation('%s:%s:%s:size' % (short(q), k, m), u.loc(n), 'the %s transfers only %d of the %s entries of member %s' % (name, v, mm.group(1), m))
            for m in sorted(interior.get(strip(q), ())):
                if k in ('move constructor', 'assignment', 'swap') and (m, m) in x.raw | {(m, m) for m in (x.got if k == 'swap' else ())} and raw_member(f, m, x):
                    ctx.count('pointers_into_the_object_itself')
                    mine, theirs = repointed(P, f, m, x)
                    if not mine: ctx.violation('%s:%s:%s:inside' % (short(q), k, m), u.loc(f), 'after the %s, member %s may point into the other object' % (name, m))
                    if not theirs and (k == 'swap' or not (c.get('x') and 0)): ctx.violation('%s:%s:%s:inside-source' % (short(q), k, m), u.loc(f), 'the %s leaves member %s of the source pointing into what was taken from it' % (name, m))
            if f.get('body') and k in ('assignment', 'swap'):
                need = [m['n'] for m in c['fields'] if m['n'] not in bypath and not c['u'].types[m['t']][1].endswith('&') and not c['u'].types[m['t']][1].startswith('const ') and (short(q), m['n']) not in CACHES and (m['n'] in x.got or x.all)]
                mu = Must(P, f, x, need); ctx.count('transfers_followed_over_all_paths')
                for m in sorted(mu.missing):
                    if (x.all or m in x.got): ctx.violation('%s:%s:%s:path' % (short(q), k, m), u.loc(f), 'on some path the %s does not transfer member %s' % (name, m))
                for n in fn_nodes(f):
                    if k == 'assignment' and lib.is_assign(n) and n.get('op') != '=' and mem_of(n['c'][0], None) and x.reads(n['c'][1]) and not any(lib.is_assign(y) and y.get('op') == '=' and mem_of(y['c'][0], None) == mem_of(n['c'][0], None) for y in fn_nodes(f)) and lib.unwrap(n['c'][0])['k'] == 'Mem':
                        ctx.violation('%s:%s:%s:op' % (short(q), k, mem_of(n['c'][0], None)), u.loc(n), 'the %s combines member %s with the value it should be given' % (name, mem_of(n['c'][0], None)))
            fts = {m['n']: c['u'].types[m['t']][1] for m in c['fields']}
            for a, b, n in x.mix:
                if a in fts and b in fts and fts[a] == fts[b]:
                    ctx.violation('%s:%s:%s<-%s' % (short(q), k, a, b), u.loc(n) if 'l' in n else u.loc(f), 'the %s gives member %s the value of member %s' % (name, a, b))
            if k == 'assignment' and not byval: selfassign(ctx, P, f, q, name, owners.get(q, set()))
    # classes owning a resource, copied by compiler-generated functions
    for q, o in sorted(owners.items()):
        c = P.classes.get(q)
        if c is None: continue
        miss = {w for w, a, b in (('copy constructor', 'ucc', 'umc'), ('assignment', 'uca', 'uma')) if not c.get(a)}
        dele = {('copy constructor' if m.get('copyctor') else 'assignment') for m in c['methods'] if m.get('del') and (m.get('copyctor') or m.get('copyasg'))}
        miss -= dele
        if not miss: ctx.count('owners_with_own_copy_operations'); continue
        for i, f in lib.lib_fns(P):
            u = f['u']
            nodes = list(fn_nodes(f)); rets = nrvo(f, nodes)
            for n in nodes:
                if 'copy constructor' in miss and n['k'] == 'Con' and n.get('cp') and not n.get('elide') and strip(n.get('q', '')).startswith(strip(q) + '::'):
                    if f.get('ctor') and f.get('defaulted'): continue
                    if id(n) in rets: continue                  # named return value, constructed in place
                    if never_owner(P, u, n, q, o): continue
                    ctx.violation('%s:shared:%s' % (short(q), lib.nm(f)), u.loc(n), '%s is copied by the compiler-generated constructor although its destructor releases %s' % (short(q), ', '.join(sorted(o))))
                if 'assignment' in miss and n['k'] == 'Call' and n.get('op') == '=' and strip(n.get('q', '')) == strip(q) + '::operator=':
                    ctx.violation('%s:shared=:%s' % (short(q), lib.nm(f)), u.loc(n), '%s is assigned by the compiler-generated operator although its destructor releases %s' % (short(q), ', '.join(sorted(o))))
    # containers holding such classes
    bad = {q for q in owners if P.classes.get(q) and not (P.classes[q].get('ucc') and P.classes[q].get('uca')) and not any(m.get('del') and m.get('copyctor') for m in P.classes[q]['methods'])}
    rx = re.compile(r'(vector|deque|list|map|set|pair|array|sl_list|simple_list)<(?:[^<>]*, )?(%s)[,>]' % '|'.join(re.escape(b) for b in bad)) if bad else None
    if rx:
        for u in P.units:
            if u.name.startswith('interpreter'): continue
            for t in u.types:
                m = rx.search(t[1])
                if m: ctx.violation('container:%s' % m.group(2), u.name, 'a container holds %s, whose compiler-generated copies share an owned resource' % m.group(2))
    ctx.floor('special_members', 30); ctx.floor('members', 60); ctx.floor('owning_classes', 6)

def const_value(P, n, depth=0):
    n = lib.unwrap(n)
    while n is not None and n['k'] in ('ICast', 'Cast'): n = lib.unwrap(n['c'][0])
    if n is None or depth > 6: return None
    if n['k'] == 'Int': return int(n['v'])
    if n['k'] == 'Ref' and 'v' in n: return int(n['v'])
    if n['k'] == 'Ref' and n.get('q') in P.vars and P.vars[n['q']].get('i') is not None: return const_value(P, P.vars[n['q']]['i'], depth + 1)
    if n['k'] == 'Bin' and n['op'] in '+-*/':
        a, b = const_value(P, n['c'][0], depth + 1), const_value(P, n['c'][1], depth + 1)
        if a is None or b is None: return None
        return a + b if n['op'] == '+' else a - b if n['op'] == '-' else a * b if n['op'] == '*' else a // b if b else None
    return None

def own_address(e):
    """e is the address of a member of *this (or may be: conditional expression)"""
    e = direct(e)
    if e is None: return False
    if e['k'] == 'Cond': return own_address(e['c'][1]) or own_address(e['c'][2])
    return e['k'] == 'Un' and e['op'] == '&' and mem_of(e['c'][0], None) is not None and lib.unwrap(e['c'][0])['k'] == 'Mem'

def interior_members(P, bycls):
    """class -> pointer members that are set to the address of another member of the same object"""
    R = {}
    for q, fs in bycls.items():
        for f in fs:
            ptr = {z['n'] for z in (P.classes.get(q) or {'fields': ()})['fields'] if P.classes[q]['u'].types[z['t']][1].endswith('*')}
            if not ptr: break
            for i in f.get('inits', ()):
                if i.get('fld') in ptr and i.get('e') is not None and own_address(i['e']): R.setdefault(strip(q), set()).add(i['fld'])
            for n in fn_nodes(f):
                if lib.is_assign(n) and n.get('op') == '=' and lib.unwrap(n['c'][0])['k'] == 'Mem':
                    m = mem_of(n['c'][0], None)
                    if m in ptr and own_address(n['c'][1]): R.setdefault(strip(q), set()).add(m)
    return R

def raw_member(f, m, x):
    for i in f.get('inits', ()):
        if i.get('fld') == m and i.get('e') is not None and any(mem_of(z, x.src) == m for z in walk(i['e']) if z['k'] == 'Mem'): return True
    for n in fn_nodes(f):
        if lib.is_assign(n) and mem_of(n['c'][0], None) == m and mem_of(n['c'][1], x.src) == m: return True
        if n['k'] == 'Call' and n.get('n') == 'swap' and any(mem_of(z, None) == m for z in n['c'] if z is not None) and any(mem_of(z, x.src) == m for z in n['c'] if z is not None): return True
    return False

def repointed(P, f, m, x, depth=0):
    mine = theirs = False
    for i in f.get('inits', ()):
        if i.get('fld') == m and i.get('e') is not None and own_address(i['e']): mine = True
    for n in fn_nodes(f):
        if lib.is_assign(n) and n.get('op') == '=':
            if mem_of(n['c'][0], None) == m and lib.unwrap(n['c'][0])['k'] == 'Mem' and own_address(n['c'][1]): mine = True
            e = direct(n['c'][1])
            if mem_of(n['c'][0], x.src) == m and e is not None and e['k'] == 'Un' and e['op'] == '&' and mem_of(e['c'][0], x.src): theirs = True
        if n['k'] == 'Call' and n.get('m') and n.get('fn') in P.fns and depth < 3 and n['c'] and n['c'][0] is not None:
            o = lib.unwrap(n['c'][0])
            if is_this(o) or o['k'] == 'Ref' and o.get('d') in x.src:
                g = P.fns[n['fn']]
                if repointed(P, g, m, Xfer(P, g, 'swap', []), depth + 1)[0]:
                    if is_this(o): mine = True
                    else: theirs = True
    # assignments that move from a source not found empty leave nothing of this object in it
    return mine or any(n['k'] == 'If' and any(x.reads(z) for z in (n['c'][0],)) for n in fn_nodes(f)) and mine_not_needed(f, m, x), theirs

def mine_not_needed(f, m, x):
    """the raw transfer happens only after a test of the source (for being empty)"""
    for n in fn_nodes(f):
        if n['k'] == 'If' and x.reads(n['c'][0]):
            for b in n['c'][1:]:
                if b is not None and any(lib.is_assign(z) and mem_of(z['c'][0], None) == m and mem_of(z['c'][1], x.src) == m for z in walk(b)): return True
    return False

def nrvo(f, nodes):
    rr = [lib.unwrap(n['c'][0]) for n in nodes if n['k'] == 'Return' and n.get('c') and n['c'][0] is not None]
    d = set()
    for r in rr:
        a = lib.unwrap(r['c'][0]) if r is not None and r['k'] == 'Con' and len(r['c']) == 1 else None
        d.add(a.get('d') if a is not None and a['k'] == 'Ref' and a.get('dk') == 'local' else None)
    return {id(r) for r in rr} if len(d) == 1 and None not in d else set()

def never_owner(P, u, n, q, own):
    """the copied object is of a derived class whose constructors all leave the owning pointers null"""
    x = n['c'][0]
    while x is not None and x['k'] in ('ICast', 'Cast'): x = x['c'][0]
    D = bare(u.types[x['t']][1])
    if D == q: return False
    ok = False
    for f in P.fns.values():
        if f.get('ctor') and f.get('cls') == D and not f.get('defaulted'):
            for i in f.get('inits', ()):
                if i.get('base') == q:
                    e = lib.unwrap(i['e'])
                    g = P.fns.get(e.get('fn')) if e is not None else None
                    if g is None: return False
                    nul = {j['fld'] for j in g.get('inits', ()) if j.get('fld') and direct(j['e']) is not None and direct(j['e'])['k'] in ('Null', 'Int')}
                    if not own <= nul: return False
                    ok = True
    return ok

def selfassign(ctx, P, f, q, name, own):
    """destruction of own storage before the source is read"""
    u = f['u']; d = f['params'][0]['d']
    seq = list(walk(f['body']))
    move = u.types[f['params'][0]['t']][1].endswith('&&')
    guard = any(n['k'] in ('Bin', 'Call') and n.get('op') in ('!=', '==') and any(is_thisptr(x) for x in n['c']) and any(is_addr(x, d) for x in n['c']) for n in seq)
    ctx.count('assignment_operators')
    if guard: return
    if move:        # emptying the source empties the target when they are the same object
        for n in seq:
            t = None
            if n['k'] == 'Call' and n.get('m') and n['c'] and n['c'][0] is not None and not n.get('op') and n['n'] != 'swap':
                o = lib.unwrap(n['c'][0]); g = P.fns.get(n.get('fn'))
                if o['k'] == 'Mem' and o.get('fld') and o.get('c') and o['c'][0] is not None and n['n'] in ('clear', 'reset', 'release'): o = lib.unwrap(o['c'][0])
                elif g is None or g.get('const') or not any(lib.is_assign(z) and lib.unwrap(z['c'][0])['k'] == 'Mem' for z in fn_nodes(g)): o = None
                if o is not None and o['k'] == 'Ref' and o.get('d') == d: t = n
            elif lib.is_assign(n):
                o = lib.unwrap(n['c'][0])
                if o['k'] == 'Mem' and o.get('c') and o['c'][0] is not None:
                    o = lib.unwrap(o['c'][0])
                    if o['k'] == 'Ref' and o.get('d') == d: t = n
            if t is not None:
                ctx.violation('%s:self' % short(q), u.loc(n), 'the %s empties the source without excluding that it is the target itself' % name); return
        return
    for j, n in enumerate(seq):
        kill = None
        if n['k'] == 'Delete' and mem_of(n['c'][0], None): kill = mem_of(n['c'][0], None)
        if n['k'] == 'Call' and n.get('m') and n['n'] == 'clear' and not n.get('op'):
            kill = mem_of(n['c'][0], None) or ('*' if is_this(n['c'][0]) else None)
        if n['k'] == 'Call' and n.get('m') and n['n'].startswith('~') and is_this(n['c'][0]): kill = '*'
        if kill is None: continue
        inside = set(id(x) for x in walk(n))
        for x in seq[j + 1:]:
            if id(x) in inside: continue
            if x['k'] == 'Ref' and x.get('d') == d:
                ctx.violation('%s:self' % short(q), u.loc(n), 'the %s destroys its own contents (%s) before reading the source, without excluding self-assignment' % (name, kill))
                return

def is_thisptr(x):
    x = lib.unwrap(x); return x is not None and x['k'] == 'This'
def is_addr(x, d):
    x = lib.unwrap(x)
    if x is not None and x['k'] == 'Call' and x.get('n') == 'addressof': x = lib.unwrap(x['c'][-1]); return x['k'] == 'Ref' and x.get('d') == d
    return x is not None and (x['k'] == 'Un' and x['op'] == '&' or x['k'] == 'Call' and x.get('op') == '&') and lib.unwrap(x['c'][0]).get('d') == d
