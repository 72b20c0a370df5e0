"""C12: output goes to the destination chosen by the caller, all of it, and leaves that stream's settings as found."""
import re
from src import walk, fn_nodes, children
from prog import strip, bare
import lib

EXPLANATION = ('All functions that take an output stream, and all commands that open an output file chosen by the user, are examined for writes '
               'to the standard streams (directly or through any callee), for the stream they return, and for stream settings they change.')
RULE = ('A function given an output stream neither writes to standard output itself nor calls a function that does; what it returns as stream is '
        'the one it was given; while a user-chosen output file is open, standard output receives status messages (string literals) only; a persistent '
        'stream setting (fill character, base, flags, precision) that is changed is restored before every return.')
ASSUMPTIONS = ['progress reports on standard error from deeper calls are not output in the sense of this property']

OSTREAM = re.compile(r'^(std::)?(basic_ostream<char>|basic_ofstream<char>|basic_ostringstream<char>|basic_stringstream<char>)')
def is_os(T):
    T = T.strip()
    return bool(OSTREAM.match(bare(T)))
STICKY = {'std::hex', 'std::oct', 'std::uppercase', 'std::showbase', 'std::showpos', 'std::boolalpha', 'std::left', 'std::right', 'std::internal',
          'std::fixed', 'std::scientific', 'std::unitbuf', 'std::setfill', 'std::setprecision', 'std::setbase', 'std::setiosflags', 'std::noskipws'}
UNSTICK = {'std::hex': 'std::dec', 'std::oct': 'std::dec', 'std::boolalpha': 'std::noboolalpha', 'std::showpos': 'std::noshowpos', 'std::uppercase': 'std::nouppercase', 'std::showbase': 'std::noshowbase'}
STICKYM = {'fill', 'precision', 'setf', 'flags', 'unsetf', 'imbue'}
# functions whose task is a dialogue with the user, or progress reporting
DIALOGUE = {}

def root(n, env):
    """stream object an expression denotes"""
    n = lib.unwrap(n)
    while n is not None:
        if n['k'] == 'Ref': 
            if n.get('dk') in ('local', 'binding') and n['d'] in env: n = lib.unwrap(env[n['d']]); continue
            return n
        if n['k'] == 'Call' and n.get('c'):
            # operator<<, member functions of streams and functions passing a stream through
            a = [x for x in n['c'] if x is not None and 't' in x and is_os(n['_u'].types[x['t']][1])] if '_u' in n else n['c'][:1]
            if not a: return n
            n = lib.unwrap(a[0]); continue
        if n['k'] in ('Un',) and n['op'] == '*' or n['k'] in ('Cast', 'ICast'): n = lib.unwrap(n['c'][0]); continue
        return n
    return None

def streamroot(u, n, env):
    n = lib.unwrap(n)
    for _ in range(200):
        if n is None: return None
        if n['k'] == 'Ref':
            if n.get('dk') == 'local' and n['d'] in env and env[n['d']] is not None: n = lib.unwrap(env[n['d']]); continue
            return n
        if n['k'] == 'Call' and n.get('c'):
            a = [x for x in n['c'] if x is not None and 't' in x and (is_os(u.types[x['t']][1]) or 'ostream' in u.types[x['t']][1])]
            if not a: return n
            n = lib.unwrap(a[0]); continue
        if n['k'] in ('Cast', 'ICast', 'DefArg') or n['k'] == 'Un' and n['op'] == '*': n = lib.unwrap(n['c'][0]); continue
        return n
    return None

STDIO = {'printf', 'puts', 'putchar', 'fputs', 'fprintf', 'fwrite', 'putc', 'fputc', 'vprintf'}
def stdio(n): return n['k'] == 'Call' and strip(n.get('q', '')).replace('std::', '') in STDIO
def is_cout(n): return n['k'] == 'Ref' and n.get('dk') == 'global' and n.get('q') in ('std::cout', 'std::wcout')
def is_cerr(n): return n['k'] == 'Ref' and n.get('dk') == 'global' and n.get('q') in ('std::cerr', 'std::clog')
def cout_writers(P):
    """functions that write standard output directly, and their closure under calls"""
    direct = {}
    for i, f in P.fns.items():
        for n in fn_nodes(f):
            if is_cout(n) or stdio(n): direct.setdefault(i, n); break
    return direct

def check(ctx):
    P = ctx.prog()
    direct = cout_writers(P)
    lib_ids = dict(lib.lib_fns(P))
    reach = {i: None for i in direct if i in lib_ids}
    w = list(reach)
    while w:
        x = w.pop()
        for c in P.callers.get(x, ()):
            if c in lib_ids and c not in reach: reach[c] = x; w.append(c)
    for i, f in lib_ids.items():
        u = f['u']
        sp = [p for p in f['params'] if re.search(r'&$', u.types[p['t']][1]) and is_os(u.types[p['t']][1])]
        nodes = list(fn_nodes(f))
        env = {}
        for n in nodes:
            if n['k'] == 'Var' and re.search(r'&$', u.types[n['t']][1]) and is_os(u.types[n['t']][1]): env[n['d']] = n.get('i')
        ids = {p['d'] for p in sp}
        if sp and any(n['k'] == 'Call' and n.get('m') and n['n'] == 'open' and lib.unwrap(n['c'][0]).get('d') in ids for n in nodes): sp = []   # opens it itself
        if sp:
            ctx.count('functions_given_a_stream')
            for n in nodes:
                if is_cerr(n) and not literal_only(u, f['body'], n):
                    ctx.violation('%s:cerr' % lib.nm(f), u.loc(n), '%s is given an output stream but writes data to standard error' % lib.nm(f))
                if is_cout(n) or stdio(n):
                    ctx.violation('%s:cout' % lib.nm(f), u.loc(n), '%s is given an output stream but writes to standard output' % lib.nm(f))
                if n['k'] in ('Call', 'Con') and n.get('fn'):
                    for t in P.targets(n):
                        if t in reach and t != i:
                            # a callee that gets our stream is reported itself
                            if any('t' in x and is_os(u.types[x['t']][1]) for x in n['c'] if x is not None) and t not in direct: continue
                            ctx.violation('%s:calls:%s' % (lib.nm(f), n.get('n')), u.loc(n), '%s is given an output stream but calls %s, which writes to standard output' % (lib.nm(f), n.get('q')))
            rt = u.types[f['ret']][1]
            if re.search(r'&$', rt) and is_os(rt):
                ctx.count('functions_returning_a_stream')
                for n in own_nodes(f['body']):
                    if n['k'] != 'Return' or not n.get('c') or n['c'][0] is None: continue
                    r = streamroot(u, n['c'][0], env)
                    ctx.count('stream_returns')
                    if r is not None and (r['k'] == 'Ref' and r.get('dk') in ('parm',) and r['d'] in ids): continue
                    if r is not None and r['k'] == 'Ref' and r.get('dk') in ('local', 'slocal', 'global'):
                        ctx.violation('%s:return' % lib.nm(f), u.loc(n), '%s returns the stream %s instead of the one it was given' % (lib.nm(f), r.get('q')))
                    elif r is None or r['k'] not in ('This', 'Mem'): ctx.undecided('%s returned stream not resolved' % u.loc(n))
        # user-chosen output files
        for n in nodes:
            if n['k'] == 'Var' and re.search(r'OutputFile', u.types[n['t']][1]) and not n.get('static'):
                ctx.count('output_files')
                scope = scope_of(f['body'], n)
                for x in after(scope, n):
                    if is_cout(x) or is_cerr(x) and not handlers(scope, x):
                        if not literal_only(u, f['body'], x):
                            ctx.violation('%s:file' % lib.nm(f), u.loc(x), '%s sends data to standard output or error after the user has chosen an output file' % lib.nm(f))
                    # callees writing standard output while they are not given the file
                    if x['k'] == 'Call' and x.get('fn') and x['fn'] in direct and x['fn'] in lib_ids and not x.get('op'):
                        if not STATUS.search(strip(x.get('q', ''))):
                            ctx.violation('%s:filecall:%s' % (lib.nm(f), x.get('n')), u.loc(x), '%s calls %s, which writes standard output, after the user has chosen an output file' % (lib.nm(f), x.get('q')))
        # settings
        settings(ctx, f, u, nodes, ids)
    ctx.floor('functions_given_a_stream', 120); ctx.floor('functions_returning_a_stream', 90); ctx.floor('output_files', 30); ctx.floor('stream_returns', 90)
    ctx.floor('setting_changes', 1)

STATUS = re.compile(r'^atlas::(interactive|interactive_\w+|input|ioutils)::')

def own_nodes(b):
    """nodes outside nested lambdas"""
    st = [b]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        if x['k'] == 'Lambda': continue
        st.extend(children(x))

def handlers(scope, x):
    """inside a catch handler"""
    for t in walk(scope):
        if t['k'] == 'Try':
            for h in t['c'][1:]:
                if any(y is x for y in walk(h)): return True
    return False

def scope_of(body, var):
    best = body
    st = [body]
    while st:
        x = st.pop()
        if x['k'] == 'Block':
            for s in x['c']:
                if s and s['k'] == 'Decl' and any(v is var for v in s['c']): return x
        st.extend(children(x))
    return best
def after(block, var):
    seen = False
    for s in block['c']:
        if s is None: continue
        if seen: yield from walk(s)
        if s['k'] == 'Decl' and any(v is var for v in s['c']): seen = True

def literal_only(u, body, ref):
    par = lib.parents(body)
    x = ref
    while True:
        p = par.get(id(x))
        if p is None: return True
        if p['k'] == 'Call' and p.get('op') == '<<' and p['c'][0] is x:
            a = lib.unwrap(p['c'][1])
            while a is not None and a['k'] == 'Con' and len(a['c']) == 1: a = lib.unwrap(a['c'][0])
            if not (a is not None and (a['k'] in ('Str', 'Chr', 'Int') or a['k'] == 'Ref' and a.get('dk') == 'fn')): return False
            x = p; continue
        if p['k'] == 'Call': 
            return False if not (p.get('m') and p['n'] in ('flush', 'width')) else True
        if p['k'] in ('ICast', 'Cast'): x = p; continue
        if p['k'] in ('Cond', 'Var', 'Lambda', 'InitList', 'Con', 'Return') or p['k'] == 'Un' and p['op'] == '&': return False     # the stream itself is passed on
        return True

def settings(ctx, f, u, nodes, ids):
    ch = []
    for pos, n in enumerate(nodes):
        if n['k'] == 'Call' and n.get('m') and n['n'] in STICKYM and len(n['c']) >= 2 and 't' in n['c'][0] and 'ios' in strip(n.get('q', '')):
            r = lib.unwrap(n['c'][0])
            if local_stream(u, r): continue
            ch.append((n, 'm', n['n'], lib.unwrap(n['c'][1]), pos))
        if n['k'] == 'Call' and n.get('op') == '<<' and len(n['c']) == 2 and n['c'][1] is not None:
            a = lib.unwrap(n['c'][1])
            while a['k'] == 'Con' and len(a.get('c', ())) == 1 and a['c'][0] is not None: a = lib.unwrap(a['c'][0])     # copies of manipulators
            q = strip(a.get('q', '')) if a['k'] in ('Ref', 'Call') else ''
            if q in STICKY or q in UNSTICK.values():
                r = streamroot(u, n, {})
                if local_stream(u, r): continue
                ch.append((n, 'i', q, a, pos))
    if not ch: return
    body = f['body']; par = lib.parents(body)
    def restores(c, n, k, name):
        if c[0] is n: return False
        if k == 'm':
            # restoring call: argument is a local or member holding the previous setting
            return c[1] == 'm' and c[2] == name and c[3] is not None and (c[3]['k'] == 'Ref' and saved(nodes, c[3].get('d'), name) or c[3]['k'] == 'Mem')
        return c[2] == UNSTICK.get(name) or c[1] == 'm' and c[2] in ('flags', 'fill', 'precision', 'setf', 'unsetf') and c[3] is not None and c[3]['k'] == 'Ref' and saved(nodes, c[3].get('d'), c[2])
    for n, k, name, a, pos in ch:
        if k == 'i' and name in UNSTICK.values(): continue
        if k == 'm' and a is not None and (a['k'] == 'Ref' and a.get('dk') == 'local' and saved(nodes, a['d'], name) or a['k'] == 'Mem'): continue
        ctx.count('setting_changes')
        if f.get('ctor') and f.get('cls') and guard_class(ctx, f): continue
        ok = False
        for c in ch:
            if not restores(c, n, k, name): continue
            # same statement (a later item of the same output chain), or a later statement of an enclosing block, with no exit in between
            x, y = stmt_in(par, n), stmt_in(par, c[0])
            anc = []; z = n
            while z is not None: anc.append(id(z)); z = par.get(id(z))
            if x is y: ok = True; break
            bp = par.get(id(y))
            if bp is not None and bp['k'] == 'Block' and id(bp) in anc:
                inside = [t for t in bp['c'] if t is not None]
                top = [t for t in inside if id(t) in anc][0]
                i0, i1 = idx(inside, top), idx(inside, y)
                if i1 >= i0 and not any(exits(t) for t in inside[i0:i1]): ok = True; break
        if not ok:
            ctx.violation('%s:setting:%s' % (lib.nm(f), name), u.loc(n), '%s changes a persistent setting (%s) of the output stream and does not restore it on every path' % (lib.nm(f), name))

def idx(l, x): return [i for i, t in enumerate(l) if t is x][0]
def exits(t):
    return any(x['k'] in ('Return', 'Throw') for x in own_nodes(t))
def stmt_in(par, n):
    """statement (direct child of a block) containing n"""
    while True:
        p = par.get(id(n))
        if p is None or p['k'] in ('Block', 'If', 'For', 'While', 'Do', 'Range', 'Switch', 'Case', 'Default', 'Try', 'Catch', 'Lambda', 'Label'): return n
        n = p
def guard_class(ctx, f):
    """the destructor of the class restores the setting"""
    P = ctx.prog()
    for g in P.fns.values():
        if g.get('dtor') and g.get('cls') == f.get('cls'):
            if any(x['k'] == 'Call' and x.get('m') and x['n'] in STICKYM for x in fn_nodes(g)): return True
    return False

def saved(nodes, d, name):
    for n in nodes:
        if n['k'] == 'Var' and n['d'] == d and n.get('i') is not None:
            if any(x['k'] == 'Call' and x.get('m') and x['n'] == name for x in walk(n['i'])): return True
    return False
def local_stream(u, r):
    return r is not None and r['k'] == 'Ref' and r.get('dk') == 'local' and not u.types[r['t']][1].endswith('&') and re.search('stringstream', u.types[r['t']][1])
