"""Helpers shared by the library-wide checks."""
import re
from src import children, walk, fn_nodes, Broken
from prog import strip, bare
import effects as _eff

def loc(f, n=None): return f['u'].loc(n if n is not None and 'l' in n else f)
def is_interp(f): return '/interpreter/' in f['u'].loc(f) or f['u'].loc(f).startswith('interpreter/')

def lib_fns(P):
    """functions of the mathematical library and Fokko (everything outside the interpreter directory)"""
    for i, f in P.fns.items():
        if not is_interp(f): yield i, f

def lib_effects(P):
    """effects restricted to the library part of the program"""
    if not hasattr(P, '_leff'):
        class View: pass
        v = View(); v.fns = dict(lib_fns(P)); v.targets = P.targets
        v.callees = P.callees; v.callers = P.callers
        P._leff = _eff.Effects(v)
    return P._leff

def nm(f):
    """stable short name of a function"""
    return strip(f['q']).replace('(anonymous namespace)::', '')

def parents(root):
    par = {}
    st = [root]
    while st:
        x = st.pop()
        for c in children(x):
            par[id(c)] = x; st.append(c)
    return par

def unwrap(n):
    while n is not None and n['k'] in ('ICast', 'Cast', 'DefArg', 'DefInit') and n.get('c'): n = n['c'][0]
    return n

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
def is_assign(n):
    return n['k'] == 'Bin' and n['op'] in ASSIGN or n['k'] == 'Call' and n.get('op') in ASSIGN

def is_empty(f):
    """a function whose body does nothing at all"""
    return not any(n['k'] not in ('Compound', 'Block', 'Null') for n in walk(f['body']))

_seen = None
def is_new(f):
    """f is a function that did not exist when the tables of function names were made"""
    global _seen
    if _seen is None:
        import os
        _seen = set(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'functions_seen.txt')).read().split('\n'))
    return nm(f) not in _seen

def exempt(P, f, table, depth=3):
    """f is in a table of functions, or is a new function (one that did not exist when the tables were made) that only such functions call"""
    if nm(f) in table: return True
    if depth == 0 or not is_new(f): return False
    cs = [P.fns[c] for c in P.callers.get(f['id'], ()) if c in P.fns]
    return bool(cs) and all(exempt(P, g, table, depth - 1) for g in cs)
