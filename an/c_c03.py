"""C03: every expression kind leaves exactly what the requested evaluation level asks for."""
from absint import Interp, St, Undecided, tstr, ANY, N, NONNULL, compat
from prog import bare
from src import fn_nodes
import builtins_
import re

EXPLANATION = ('Abstract interpretation of the evaluation method of every expression class and the application method of every '
  'function-value class, at each evaluation level, from an empty symbolic stack. Sub-expressions, called functions and '
  'built-ins are replaced by the contract being proved (assume/guarantee), so the argument is an induction over expression '
  'depth. Every normal exit must leave nothing (no value wanted), one value, or one expanded value.')
RULE = ('obligation = (evaluation method, level); violated by an exit whose symbolic stack is not what the level prescribes, '
        'or by popping below what the method pushed')
ASSUMPTIONS = ['static typing of user programs is correct (element types of sub-results are not tracked here)',
               'a called function consumes all values its caller pushed for it']

MULTI = ('v', ('multi',))
VAL = ('v', NONNULL)

class EInterp(Interp):
    def __init__(self, p, touch, flags=(), mode='', targets=()):
        super().__init__(p, hook)
        self.touch2 = touch
        self.flags = flags; self.mode = mode; self.targets = targets
        self.subcalls = self.applied = 0
    def x_Ref(self, u, n, st, fr):
        if n.get('dk') == 'global' and n.get('q') in self.flags:
            return [(st, ('loc', ('var', 'g', n['q'])))]
        return super().x_Ref(u, n, st, fr)
    def s_Switch(self, u, n, st, fr):
        # an enumeration switch whose default does nothing: the default is for values excluded beforehand
        b = n['c'][-1]
        c = b.get('c') or []
        if c and c[-1] is not None and c[-1]['k'] == 'Default' and empty(c[-1]) and any(x is not None and x['k'] == 'Case' for x in c):
            n = dict(n); n['c'] = list(n['c']); n['c'][-1] = dict(b, c=c[:-1])
            self.noexit = True
            try: return super().s_Switch(u, n, st, fr)
            finally: self.noexit = False
        return super().s_Switch(u, n, st, fr)
    def mark(self): return len(self.viol), [len(c) for c in self.collect]
    def reset(self, m):
        del self.viol[m[0]:]
        for c, k in zip(self.collect, m[1]): del c[k:]
    # a loop leaving one value per iteration builds a group of components
    def loop(self, u, st, fr, *a, **k):
        mark = self.mark()
        try: return super().loop(u, st, fr, *a, **k)
        except Undecided as e:
            if 'unbounded pushing' not in str(e): raise
        self.reset(mark)
        return self.accelerated(lambda s: super(EInterp, self).loop(u, s, fr, *a, **k), st)
    def nondet(self, u, st, fr, *a, **k):
        mark = self.mark()
        try: return super().nondet(u, st, fr, *a, **k)
        except Undecided as e:
            if 'indefinitely' not in str(e): raise
        self.reset(mark)
        return self.accelerated(lambda s: super(EInterp, self).nondet(u, s, fr, *a, **k), st)
    def accelerated(self, run, st):
        old, self.accel = getattr(self, 'accel', None), len(st.stack)
        try: return run(st.sets(st.stack + (MULTI,)))
        finally: self.accel = old
    def loop_clean(self, st, fr, body):
        st = super().loop_clean(st, fr, body)
        a = getattr(self, 'accel', None)
        if a is not None and len(st.stack) == a + 2 and st.stack[a] == MULTI and st.stack[a + 1] != MULTI and st.stack[a + 1][0] in ('v', 'obj'):
            st = st.sets(st.stack[:a + 1])
        return st
    def exhaustive(self, u, n, cands): return getattr(self, 'noexit', False)
    def should_inline(self, u, n, f):
        fn = self.p.fns[f]
        if fn.get('virt'): return False
        if f in self.touch2: return True
        return super().should_inline(u, n, f)
    def vec(self, u, n, st, fr, nm, args):
        # a group of components of unknown number: popping takes from the group
        a0 = args[0]
        if a0 is not None and a0['k'] == 'Ref' and a0.get('q', '').endswith('::execution_stack') and st.stack:
            top = st.stack[-1]
            if top[0] == 'v' and top[1][0] == 'multi':
                if nm == 'pop_back':
                    return [(st.sets(st.stack[:-1] + (('v', ('multi', 1)),)), N)]
                if nm == 'back':
                    if len(top[1]) > 1:
                        # caller already took its components: the group is used up, look below
                        if getattr(self, 'popping', 0): return [(st, ('v', ANY))]
                        return super().vec(u, n, st.sets(st.stack[:-1]), fr, nm, args)
                    return [(st, ('v', ANY))]
                if nm == 'size': return [(st, N)]
        return super().vec(u, n, st, fr, nm, args)
    def inline(self, u, n, st, fr, f, args, this):
        pop = f['q'].endswith('::pop_value')
        if pop: self.popping = getattr(self, 'popping', 0) + 1
        try: return super().inline(u, n, st, fr, f, args, this)
        finally:
            if pop: self.popping -= 1

ESC = ('loop_break', 'function_return', 'runtime_error')

def push_level(s, lv, single=VAL):
    if lv == ('i', 0): return s
    if lv == ('i', 1): return s.sets(s.stack + (single,))
    if lv == ('i', 2): return s.sets(s.stack + (MULTI,))
    raise Undecided('sub-expression evaluated at an unknown level')

def hook(I, u, n, st, fr, q):
    nm = n.get('n', '')
    args = n.get('c', [])
    if n.get('virt') and not n.get('qualified') and nm == 'evaluate' and len(args) == 2:
        out = []
        for s, vs in I.seq(u, args, st, fr):
            lv = I.rd(s, vs[1])
            I.subcalls += 1
            for t in ESC: I.throw(s, 'atlas::interpreter::' + t)
            # evaluating anything may change the loop flags
            r = push_level(s, lv)
            if I.mode == 'loop':       # a loop body may announce that the loop is over, leaving nothing
                for g in I.flags:
                    out.append((r.setenv(('g', g), ('i', 1)), N))
                    out.append((s.setenv(('g', g), ('i', 0)), N))
            else:
                for g in I.flags: r = r.setenv(('g', g), N)
                out.append((r, N))
        return out
    if n.get('virt') and not n.get('qualified') and nm == 'argument_policy':
        return [(s, ('i', k)) for s, vs in I.seq(u, args, st, fr) for k in (1, 2)]
    if n.get('virt') and not n.get('qualified') and nm == 'maybe_push':
        # recursive functions put themselves below their argument
        out = []
        for s, vs in I.seq(u, args, st, fr):
            out.append((s, N)); out.append((s.sets(s.stack + (VAL,)), N))
        return out
    isapply = n.get('virt') and not n.get('qualified') and nm == 'apply' and len(args) == 2
    if isapply or (n.get('ce') is not None and args and 'eval_level' in u.T(args[-1])):
        out = []
        nodes = ([n['ce']] if n.get('ce') is not None else []) + list(args)
        for s, vs in I.seq(u, nodes, st, fr):
            lv = I.rd(s, vs[-1])
            I.applied += 1
            I.throw(s.sets(()), 'atlas::interpreter::runtime_error')
            s = s.sets(())
            out.append((push_level(s, lv), N))
        return out
    if n.get('ce') is not None and not args and 'convert' in str(n['ce'].get('n', '')) + str([c.get('n') for c in (n['ce'].get('c') or []) if c]):
        # conversion function: one value in, one value out, of one of the implicit conversions' target types
        out = []
        for s, _ in I.seq(u, [n['ce']], st, fr):
            if not s.stack: I.V('underflow', u, n, 'conversion applied with nothing on the evaluation stack'); continue
            I.throw(s, 'atlas::interpreter::runtime_error')
            out.append((s.sets(s.stack[:-1] + (('v', ('oneof', I.targets)),)), N))
        return out
    return None

def touch_set(p):
    direct = set(p.direct)
    nv = {}
    for i, f in p.fns.items():
        for n in fn_nodes(f):
            if n['k'] == 'Call':
                if n.get('virt') and n.get('n') in ('evaluate', 'apply') and 'interpreter' in n.get('q', ''): direct.add(i)
                elif n.get('ce') is not None and n.get('c') and n['c'][-1] is not None and 'eval_level' in f['u'].T(n['c'][-1]): direct.add(i)
            if n['k'] in ('Call', 'Con') and n.get('fn') and not (n.get('virt') and not n.get('qualified')):
                nv.setdefault(n['fn'], set()).add(i)
    return p.closure(direct, nv)

def targets(p):
    """(fn record, kind) for every evaluation / application method"""
    out = []
    for i, f in p.fns.items():
        n = f['q'].split('::')[-1]
        if not f.get('cls') or len(f['params']) != 1: continue
        if not bare(f['u'].types[f['params'][0]['t']][1]).endswith('::eval_level'): continue
        if f.get('virt') and n in ('evaluate', 'apply'):
            out.append((f, n))
    return out

def empty(n):
    while n is not None and n['k'] in ('Default', 'Case'): n = (n.get('c') or [None])[-1]
    return n is None or n['k'] in ('Null', 'Break', 'Empty') or (n['k'] == 'Block' and not [x for x in n.get('c', ()) if x is not None and x['k'] != 'Break'])

def flag_vars(p, ts):
    """global flags through which a loop body tells the loop that it is over: set in evaluation methods"""
    w = {}; r = {}
    for f, kind in ts:
        for n in fn_nodes(f):
            t = None
            if n['k'] == 'Bin' and n['op'] == '=': t = n['c'][0]
            if t is not None and t['k'] == 'Ref' and t.get('dk') == 'global' and f['u'].T(t) == 'bool':
                w.setdefault(t['q'], set()).add(f['id'])
    for f, kind in ts:
        for n in fn_nodes(f):
            if n['k'] == 'Ref' and n.get('q') in w and f['id'] not in w[n['q']]: r.setdefault(n['q'], set()).add(f['id'])
    return {g: (w[g], r.get(g, set())) for g in w}

def class_fn(p, cls, name):
    todo = [cls]
    for c in todo:
        todo += [b for b in p.bases.get(c, p.bases.get(bare(c), [])) if b not in todo]
        for g in p.fns.values():
            if g['q'] == c + '::' + name: return g
    return None

def selfpush(p, f, touch):
    """a function value that puts itself below its argument before being applied"""
    g = class_fn(p, f['q'].rsplit('::', 1)[0], 'maybe_push')
    if g is None or g['id'] not in touch: return False
    I = EInterp(p, touch)
    outs = I.inline(g['u'], g['body'], St(), None, g, [], N)
    return bool(outs) and all(s.stack for s, v in outs)

def policy(p, f):
    """argument level a function value asks for: 1 single, 2 multi"""
    g = class_fn(p, f['q'].rsplit('::', 1)[0], 'argument_policy')
    if g is not None:
        for n in fn_nodes(g):
            if n['k'] == 'Ref' and n.get('dk') == 'enum': return int(n['v'])
    return 1

LV = ('no_value', 'single_value', 'multi_value')

def check(ctx):
    p = ctx.prog(); p.compute_throws()
    touch = touch_set(p)
    ts = targets(p)
    flags = flag_vars(p, ts)
    tg = tuple(sorted({t for t in (c['R'] for c in builtins_.coercions(p)) if t}, key=str))
    ctx.cov['evaluation_methods'] = len(ts)
    ctx.cov['loop_flags'] = len(flags)
    ctx.floor('evaluation_methods', 60)
    for f, kind in ts:
        name = short(f)
        init = ()
        mode = ''
        setter = [g for g in flags if f['id'] in flags[g][0]]
        if any(f['id'] in flags[g][1] for g in flags): mode = 'loop'
        if kind == 'apply':
            init = (MULTI,) if policy(p, f) == 2 else (VAL,)
            if selfpush(p, f, touch): init = (VAL,) + init
        single = None
        for level in (1, 0, 2):
            ctx.count('obligations')
            I = EInterp(p, touch, tuple(flags), mode, tg)
            I.collect.append([])
            try:
                outs = I.inline(f['u'], f['body'], St(stack=init), None, f, [('i', level)], N)
            except Undecided as e:
                ctx.undecided('%s@%s: %s' % (name, LV[level], e)); continue
            ctx.count('decided'); ctx.count('exits', len(outs)); ctx.count('sub_evaluations', I.subcalls)
            for rule, vu, vn, msg in I.viol:
                ctx.violation('%s:%s' % (rule, name), vu.loc(vn), '%s at %s: %s' % (f['q'], LV[level], msg))
            sg = set()
            for s, v in outs:
                st = tuple(x for x in s.stack if not (x[0] == 'v' and x[1][0] == 'multi' and len(x[1]) > 1))
                msg = None
                if setter:
                    fv = [s.env.get(('g', g), N) for g in setter]
                    if any(x[0] != 'i' for x in fv):
                        ctx.violation('flag:%s' % name, f['u'].loc(f), '%s at %s may finish without announcing whether the loop continues' % (f['q'], LV[level])); continue
                    if fv[0][1] == 0:
                        if st: ctx.violation('flag:%s' % name, f['u'].loc(f), '%s at %s leaves %d value(s) while announcing that the loop is over' % (f['q'], LV[level], len(st)))
                        continue
                if level == 0 and st: msg = 'leaves %d value(s) although none is wanted' % len(st)
                elif level == 1:
                    if len(st) != 1: msg = 'leaves %d values where one is wanted' % len(st)
                    elif st[0][0] == 'null': msg = 'leaves an absent value'
                    elif st[0] == MULTI: msg = 'leaves expanded components where a single value is wanted'
                    else: sg.add(canon(I, s, st[0]))
                elif level == 2 and st != (MULTI,):
                    got = tuple(canon(I, s, x) for x in st)
                    if single is not None and any(expansion_of(got, x) for x in single): pass
                    elif len(st) == 1 and single is not None: msg = 'leaves a possible tuple unexpanded where components are wanted'
                    elif single is not None: msg = 'leaves %d values where components of one value are wanted' % len(st)
                if msg: ctx.violation('level:%s:%s' % (LV[level], name), f['u'].loc(f), '%s evaluated at %s %s' % (f['q'], LV[level], msg))
            if level == 1: single = sg
            ctx.sample('%s @%s: %d exit(s)' % (name, LV[level], len(outs)))

def canon(I, s, v):
    v = I.rd(s, v)
    return MULTI[1] if v == MULTI else I.vtype(s, v)

def expansion_of(got, t):
    """the stack portion is the expansion of a single value of type t"""
    if t[0] == 'tup': return len(got) == len(t[1]) and all(compat(a, b) or compat(b, a) for a, b in zip(got, t[1]))
    if t[0] == 'oneof': return len(got) == 1 and not any(x[0] == 'tup' for x in t[1])
    if t[0] == 'any': return len(got) == 1 and got[0][0] not in ('any', 'var', 'tup', 'multi', 'oneof')
    return len(got) == 1 and got[0][0] not in ('any', 'tup', 'multi')

def short(f):
    q = re.sub(r'atlas::interpreter::|\(anonymous namespace\)::', '', f['q'])
    return re.sub(r'\s+', '', q)
