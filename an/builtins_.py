"""Registered built-ins and implicit conversions, read from the program."""
import re
from src import fn_nodes, children, walk, Broken
from absint import parse_type, P
from prog import bare

def peel(n):
    while n is not None and n['k'] in ('ICast', 'Cast', 'Con', 'DefArg') and len(n.get('c') or []) >= 1 and n['c'][0] is not None:
        n = n['c'][0]
    if n is not None and n['k'] == 'Un' and n['op'] == '&': return peel(n['c'][0])
    return n

def is_wrapper(p, fid):
    f = p.fns.get(fid)
    if f is None: return False
    ps = f['params']
    return len(ps) == 1 and bare(f['u'].types[ps[0]['t']][1]).endswith('interpreter::eval_level') and f.get('cls') in (None, '', 0)

def registrations(p):
    """list of dict(fn,name,type,A,R,loc): any call / initialiser naming a wrapper together with a type string"""
    out = []
    for f in p.fns.values():
        u = f['u']
        for n in fn_nodes(f):
            if n['k'] not in ('Call', 'Con', 'InitList') or len(n.get('c') or []) < 3: continue
            a = [peel(x) for x in n['c']]
            w = [x for x in a if x is not None and x['k'] == 'Ref' and x.get('dk') == 'fn' and is_wrapper(p, x.get('d'))]
            if len(w) != 1: continue
            strs = [x['v'] for x in a if x is not None and x['k'] == 'Str']
            ts = [s for s in strs if '->' in s and s.startswith('(')]
            ns = [s for s in strs if s not in ts]
            if '->' in ns: pass
            if not ts: continue
            if len(ts) > 1: ns = ts[:1]; ts = ts[1:]
            try: T = parse_type(ts[0])
            except AssertionError: raise Broken('cannot parse type string %r at %s' % (ts[0], u.loc(n)))
            hunger = [int(x['v']) for x in a if x is not None and x['k'] == 'Int']
            out.append(dict(fn=w[0]['d'], name=ns[0] if ns else '?', type=ts[0], A=T[1], R=T[2], loc=u.loc(n),
                            callee=n.get('q', ''), hunger=hunger[0] if hunger else 0, u=u, node=n))
    for v in p.vars.values():
        pass
    return out

def prim_names(p):
    """enumerator (qualified) of the primitive tags -> axis type name"""
    e = next((e for q, e in p.enums.items() if q.endswith('interpreter::primitive_tag')), None)
    v = next((v for q, v in p.vars.items() if q.endswith('interpreter::prim_names')), None)
    if e is None or v is None: raise Broken('primitive tag enumeration or name table not found')
    names = [x['v'] for x in walk(v['i']) if x['k'] == 'Str']
    return e, v, names

def type_of_expr(p, u, n, pn, depth=0):
    """axis type denoted by an expression of type type_expr, or None"""
    if depth > 6 or n is None: return None
    n = peel(n)
    if n is None: return None
    if n['k'] == 'Str': return parse_type(n['v'])
    if n['k'] == 'Ref':
        if n.get('dk') == 'enum':
            return P(pn[n['q'].split('::')[-1]]) if n['q'].split('::')[-1] in pn else None
        if n.get('dk') == 'global':
            v = p.vars.get(n['q'])
            if v is not None and v.get('i') is not None: return type_of_expr(p, v['u'], v['i'], pn, depth + 1)
        return None
    if n['k'] in ('Call', 'Con'):
        for c in n.get('c', ()):
            t = type_of_expr(p, u, c, pn, depth + 1)
            if t: return t
    return None

def coercions(p):
    e, v, names = prim_names(p)
    pn = {}
    vals = e['vals']
    for x in vals:
        nm = x[0].split('::')[-1] if isinstance(x, list) else x['n']
        val = int(x[1] if isinstance(x, list) else x['v'])
        if val < len(names): pn[nm] = names[val]
    out = []
    for f in p.fns.values():
        u = f['u']
        for n in fn_nodes(f):
            if n['k'] != 'Call' or not n.get('q', '').endswith('interpreter::coercion') or len(n['c']) < 4: continue
            c = n['c']
            w = peel(c[3])
            if w is None or w['k'] != 'Ref' or w.get('dk') != 'fn': continue
            a = type_of_expr(p, u, c[0], pn); b = type_of_expr(p, u, c[1], pn)
            s = peel(c[2])
            out.append(dict(fn=w['d'], A=a, R=b, name=s.get('v', '?') if s else '?', loc=u.loc(n)))
    return out
