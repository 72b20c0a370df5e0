"""Scratch build of the analysable sources and loading of the extracted program.

Every check calls prepare(): it copies /repo's *current* working tree sources to
a scratch directory, rebuilds ctanglex from /repo/cwebx, re-tangles all .w
files, reruns bison, and runs the extractor (../tool/extract.cpp) over the
translation units asked for.  Nothing is executed except the tangling tools.
"""
import json, os, shutil, subprocess, sys, tempfile, atexit, re
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ATLAS_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'

class Broken(Exception):
    """The analysis itself cannot answer (error exit, neither pass nor violation)."""

def tool_path():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    import hashlib
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    d = os.path.join(VERIF, 'build')
    exe = os.path.join(d, 'extract-' + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-fno-exceptions',
           '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
           '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '-L' + LLVM + '/lib', '-l:libclang-cpp.so.18.1', '-lLLVM-18',
           '-Wl,-rpath,' + LLVM + '/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise Broken('cannot build extractor: ' + r.stderr[-2000:])
    os.rename(tmp, exe)
    return exe

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='atlas-an-')
        pid = os.getpid()
        def rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

INTERP_W = ['buffer', 'parsetree', 'lexer', 'axis-types', 'global', 'axis', 'atlas-types', 'main']
_gen_names = {w + e for w in INTERP_W for e in ('.cpp', '.h')} | {
    'parse_types.h', 'axis-types-fwd.h', 'parser.tab.c', 'parser.tab.h'}
_gen_io = {'filekl.cpp', 'filekl.h', 'filekl_in.cpp', 'filekl_in.h'}

def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors='replace')
    if r.returncode:
        raise Broken('command failed: %s\n%s%s' % (' '.join(cmd), r.stdout[-1500:], r.stderr[-1500:]))
    return r

def copy_sources():
    """copy and regenerate; returns root of scratch tree"""
    s = os.path.join(scratch(), 'src')
    if os.path.isdir(s):
        return s
    def ign(d, names):
        out = {n for n in names if n.endswith(('.o', '.d'))}
        if d.endswith('sources/interpreter'):
            out |= set(names) & _gen_names
        if d.endswith('sources/io'):
            out |= set(names) & _gen_io
        return out
    shutil.copytree(os.path.join(REPO, 'sources'), os.path.join(s, 'sources'), ignore=ign)
    def ignc(d, names):
        return {n for n in names if n.endswith('.o') or n in ('ctanglex', 'cweavex')}
    shutil.copytree(os.path.join(REPO, 'cwebx'), os.path.join(s, 'cwebx'), ignore=ignc)
    run(['make', '-C', 'cwebx', 'ctanglex'], s)
    ct = os.path.join(s, 'cwebx', 'ctanglex')
    W = os.path.join(s, 'sources', 'interpreter')
    for w in INTERP_W:
        if not os.path.exists(os.path.join(W, w + '.w')):
            raise Broken('missing source ' + w + '.w')
        run([ct, '++', '-p', w + '.w'], W)
    run(['bison', '-d', 'parser.y'], W)
    run([ct, '++', '-pl', 'filekl.w'], os.path.join(s, 'sources', 'io'))
    return s

DIRS = ['utilities', 'structure', 'gkmod', 'io', 'error', 'interface', 'test', 'interpreter']
def flags(s, ndebug=True):
    f = ['-std=c++14', '-resource-dir', LLVM + '/lib/clang/18', '-w',
         '-DMESSAGE_DIR_MACRO="messages/"', '-I' + s + '/sources']
    if ndebug: f.append('-DNDEBUG')
    f += ['-I%s/sources/%s' % (s, d) for d in DIRS]
    return f

def interp_units():
    return ['interpreter/%s.cpp' % w for w in INTERP_W] + ['interpreter/parser.tab.c']

INSTANCES = 'tool/instantiate.cpp' # template members nothing uses; left out when they do not compile

def all_units(s):
    out = []
    for d in DIRS:
        dd = os.path.join(s, 'sources', d)
        for n in sorted(os.listdir(dd)):
            if n.endswith('.cpp'):
                out.append(d + '/' + n)
    out.append('interpreter/parser.tab.c')
    return out

class Unit:
    """one translation unit"""
    def __init__(self, name):
        self.name = name; self.fns = []; self.classes = []; self.enums = []; self.vars = []
        self.types = []; self.files = []
    def T(self, node):
        """canonical type string of node (expr, var, param)"""
        return self.types[node['t']][1]
    def S(self, node):
        return self.types[node['t']][0]
    def short(self, path):
        return path
    def loc(self, node):
        f = self.files[node['f']] if 'f' in node else '?'
        i = f.find('/sources/')
        if i >= 0:
            f = f[i + 1:]
        elif '/' not in f and f != '?':
            f = 'sources/' + os.path.dirname(self.name) + '/' + f
        return '%s:%d' % (f, node.get('l', 0))

_rx = re.compile(rb'^\{"r":"fn","id":"([^"]*)"')

def _local_ids(paths):
    """ids of internal-linkage functions that occur in more than one unit"""
    seen = {}
    for n, q in paths.items():
        ids = set()
        for line in open(q, 'rb'):
            m = _rx.match(line)
            if m and (b'_GLOBAL__N_1' in m.group(1) or m.group(1).startswith(b'_ZL')):
                ids.add(m.group(1))
        for i in ids: seen.setdefault(i, []).append(n)
    return {i for i, v in seen.items() if len(v) > 1}

def load_unit(name, path, clash=(), seen=None):
    """seen: set of function ids already loaded (duplicates are skipped)"""
    u = Unit(name)
    with open(path, 'rb') as fh:
        for line in fh:
            m = _rx.match(line)
            if m:
                for c in clash:
                    if c in line:
                        line = line.replace(b'"' + c + b'"', b'"' + c + b'@' + name.encode() + b'"')
                m = _rx.match(line)
                if seen is not None:
                    if m.group(1) in seen: continue
                    seen.add(m.group(1))
            r = json.loads(line)
            k = r['r']
            if k == 'fn': u.fns.append(r)
            elif k == 'cls': u.classes.append(r)
            elif k == 'enum': u.enums.append(r)
            elif k == 'var': u.vars.append(r)
            elif k == 'types': u.types = r['v']
            elif k == 'files': u.files = r['v']
    for f in u.fns:
        f['u'] = u
    for c in u.classes:
        c['u'] = u
    for v in u.vars:
        v['u'] = u
    return u

def extract(units, ndebug=True):
    """run extractor on the given units; returns dict name -> jsonl path"""
    s = copy_sources()
    exe = tool_path()
    outd = os.path.join(scratch(), 'out' + ('' if ndebug else '-dbg'))
    os.makedirs(outd, exist_ok=True)
    fl = flags(s, ndebug)
    def one(n):
        src = os.path.join(s, 'sources', n)
        out = os.path.join(outd, n.replace('/', '__') + '.jsonl')
        extra = ['-x', 'c++'] if n.endswith('.c') else []
        if n == INSTANCES: src = os.path.join(VERIF, 'tool', 'instantiate.cpp')
        r = subprocess.run([exe, out, src] + fl + extra, cwd=os.path.dirname(src),
                           capture_output=True, text=True, errors='replace')
        if r.returncode and n == INSTANCES: return n, None
        if r.returncode or not os.path.exists(out):
            raise Broken('extract failed on %s: %s' % (n, r.stderr[-1500:]))
        return n, out
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        return dict(ex.map(one, units))

def load(units, ndebug=True):
    paths = {n: p for n, p in extract(units, ndebug).items() if p}
    units = [n for n in units if n in paths]
    clash = _local_ids(paths)
    seen = set()
    return [load_unit(n, paths[n], clash, seen) for n in units]

EXPR_KEYS = ('c', 'i', 'ce', 'init', 'cv', 'var')
def children(n):
    """direct sub-nodes, in evaluation-ish order"""
    for k in ('init', 'cv', 'ce', 'var'):
        x = n.get(k)
        if isinstance(x, dict): yield x
    x = n.get('i')
    if isinstance(x, dict): yield x
    for x in n.get('c', ()):
        if x is not None: yield x

def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None: continue
        yield x
        st.extend(reversed(list(children(x))))

def fn_nodes(f):
    for i in f.get('inits', ()):
        if i.get('e'): yield from walk(i['e'])
    if f.get('body'): yield from walk(f['body'])
