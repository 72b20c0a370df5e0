"""C01: every built-in and every implicit conversion honours its declared type at each evaluation level."""
from absint import Interp, St, Undecided, tstr
import builtins_ as B

EXPLANATION = ('Abstract interpretation of each registered built-in (and each implicit conversion) body, for each of the '
  'three evaluation levels, from a symbolic stack holding exactly the declared arguments; every path is followed with '
  'helpers inlined, and each normal exit must leave exactly the declared result. Element/component types of rows, tuples '
  'and unions under construction are tracked. Exceptional exits are outside this rule.')
RULE = ('obligation = (built-in registration or conversion, evaluation level); violated by popping below the arguments, by taking a '
  'value as a class other than its declared type, or by an exit whose stack differs from the declared result')
ASSUMPTIONS = ['opaque library calls do not touch the evaluation stack (the call graph shows none do)',
               'values of statically unknown type (type variables) are compatible with everything']

def run_one(p, f, A, level, conv=False):
    """-> (exits [(st)], interp) ; may raise Undecided"""
    I = Interp(p)
    st = St(stack=tuple(('v', a) for a in A))
    args = [] if conv else [('i', level)]
    outs = I.inline(f['u'], f['body'], st, None, f, args, None)
    return I, outs

def judge(ctx, p, f, name, A, R, level, conv):
    lv = ('no_value', 'single_value', 'multi_value')[level]
    ident = '%s' % f['q'].split('::')[-1]
    args = A[1] if (A[0] == 'tup' and not conv) else (A,)
    ctx.count('obligations')
    try: I, outs = run_one(p, f, args, level, conv)
    except Undecided as e:
        ctx.undecided('%s %s@%s: %s' % (ident, name, lv, e)); return
    ctx.count('decided'); ctx.count('exits', len(outs)); ctx.count('ast_steps', I.steps)
    for rule, vu, vn, msg in I.viol:
        ctx.violation('%s:%s:%s' % (rule, ident, name), vu.loc(vn), 'built-in %s (%s) at %s: %s' % (name, f['q'], lv, msg))
    want = () if level == 0 else (R,) if level == 1 else (R[1] if R[0] == 'tup' else (R,))
    for s, v in outs:
        msg = None
        if any(x[0] == 'v' and x[1][0] == 'multi' for x in s.stack) and level == 2: continue
        if len(s.stack) != len(want):
            msg = 'leaves %d value(s) %s where %d %s expected' % (len(s.stack), [tstr(I.vtype(s, x)) for x in s.stack], len(want), 'is' if len(want) == 1 else 'are')
        else:
            for i, (x, w) in enumerate(zip(s.stack, want)):
                e = I.conform(s, x, w)
                if e: msg = 'result %d: %s' % (i, e); break
        if msg:
            ctx.violation('result:%s:%s' % (ident, name), f['u'].loc(f), 'built-in %s (%s) of type %s->%s evaluated at %s: %s' % (name, f['q'], tstr(A), tstr(R), lv, msg))
    ctx.sample('%s %s->%s @%s: %d exit(s)' % (name, tstr(A), tstr(R), lv, len(outs)))

def check(ctx):
    p = ctx.prog()
    regs = B.registrations(p)
    ctx.cov['builtins'] = len(regs)
    ctx.floor('builtins', 480)
    seen = set()
    for r in regs:
        f = p.fns.get(r['fn'])
        if f is None: ctx.undecided('no body for ' + r['fn']); continue
        k = (r['fn'], r['type'])
        for l in (0, 1, 2): judge(ctx, p, f, r['name'], r['A'], r['R'], l, False)
    cs = B.coercions(p)
    ctx.cov['conversions'] = len(cs)
    ctx.floor('conversions', 28)
    for c in cs:
        f = p.fns.get(c['fn'])
        if f is None or c['A'] is None or c['R'] is None: ctx.undecided('conversion ' + c['name']); continue
        judge(ctx, p, f, c['name'], c['A'], c['R'], 1, True)
    ctx.floor('decided', 1400)
