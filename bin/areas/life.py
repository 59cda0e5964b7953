"""Lifecycle of dycores: C01 (specs/Lifecycle.tla)."""
from vlib import *
import random

def cfg(rec, acts, ops, modes='0 .. 2', discs='0 .. 5', dy='D0', ctor='{3}', mesh='{0, 3}', meths='{0, 1}', asks='0 .. 6', sets='0 .. 3'):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules <- %s\nActs = {%s}\nDy <- %s\nGModes = %s\nGDiscs = %s\nGCtor = %s\nGMesh = %s\nMeths = %s\n'
            'Asks = %s\nSets = %s\nMaxOps = %d\n%s' % (
            'None' if rec else 'AllRules', ', '.join('"%s"' % a for a in acts.split()), dy, S(modes), S(discs), S(ctor), S(mesh), S(meths), S(asks), S(sets), ops,
            'INVARIANT Emit\n' if rec else 'VIEW vars\nINVARIANTS Sound Ordered CanFinish\nPROPERTIES Closed Apart\n'))
def S(s):
    if s[0] == '{': return s
    a, b = s.split(' .. '); return '{%s}' % ', '.join(map(str, range(int(a), int(b) + 1)))

ALL = 'out new mode disc ctor cli mesh from set setup init run step ask del'
def block(h): return ''.join(' '.join([e['e'], str(e['a'])] + [str(e[x]) for x in 'bc' if x in e]) + '\n' for e in h)
def late(h):   # scenarios that get somewhere are worth more than those that do not
    return sum(2 if e['e'] in ('init', 'setup') and e['b'] else 1 if e['e'] in ('from', 'run', 'ask') else 0 for e in h)

def run(ctx):
    build(ctx)
    q = ctx.quick
    # the model itself: every state of two dycores and the command line
    must = ['GMode', 'GDisc', 'GCtor_', 'GFrom', 'GSetup', 'GDriver', 'GRun', 'GAsk', 'GDel']
    model_check(ctx, 'MCLifecycle', cfg(False, ALL, 40, modes='{0, 1, 3}' if q else '0 .. 3', discs='{0, 1, 5}' if q else '0 .. 5', asks='{0, 2, 4}', sets='{0, 2}'),
                'Lifecycle: order and pairs', must_take=must)
    if not q:
        model_check(ctx, 'MCLifecycle', cfg(False, 'new mode disc from init setup cli ask del', 40, modes='{0, 1}', discs='{0, 4}', dy='D01', meths='{0}', asks='{1}'),
                    'Lifecycle: two dycores', must_take=['GMode', 'GDisc', 'GFrom', 'GSetup', 'GDriver', 'GAsk', 'GDel'])
    # every short sequence of the ordering calls, by calls and by command line
    hs = generate(ctx, 'MCLifecycle', cfg(True, 'new mode disc from init cli', 5, modes='{0, 1}', discs='{0, 5}', meths='{0}'), 'short sequences', workers=8)
    hs += generate(ctx, 'MCLifecycle', cfg(True, 'new mode disc from ask setup del run ctor', 6, modes='{1}', discs='{0, 3}', asks='{1, 2}'), 'short sequences', workers=8)
    nx = len(hs)
    rnd = random.Random(ctx.seed)
    hs = rnd.sample(hs, min(nx, 1500 if q else 20000))
    sims = [cfg(True, ALL, 16, dy='D0'), cfg(True, ALL, 24, dy='D01'), cfg(True, 'new mode disc ctor from init run step ask set', 12, modes='0 .. 3', dy='D0'),
            cfg(True, 'new cli out mesh from setup ask init run del set', 12, dy='D01'), cfg(True, 'new mode disc cli mesh from setup init ask', 14, dy='D01', modes='{0, 3}', discs='{1, 3, 4, 5}')]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: generate(ctx, 'MCLifecycle', c, 'random sequences', simulate=1200 if q else 8000, depth=40), sims):
            r = [h for h in r if h]
            r.sort(key=lambda h: -late(h))
            k = 400 if q else 4000
            hs += r[:k // 2] + rnd.sample(r[k // 2:], min(k // 2, max(0, len(r) - k // 2)))
    # every pair, by calls and by the command line, all the way to the end
    hs += [full(m, d, how, q_, end) for m in range(3) for d in range(6) for how in range(3) for q_ in (0, 1) for end in range(4)]
    blocks = {i: block(h) for i, h in enumerate(hs)}
    conform(ctx, 'life', blocks, lambda s, e: e, 'LifecycleTrace', trace_cfg('CONSTANTS\nRules <- TraceRules\n'), meta=dict(enumerate(hs)), tenv={'RULES': 'life'}, timeout=700)
    ctx.notes.append('%d short sequences enumerated, %d sequences executed in all' % (nx, len(hs)))
    return finish(ctx, 'model_checking')

def full(m, d, how, q, end):
    E = lambda e, **k: dict(e=e, a=0, **k)
    out, end = end > 1, end % 2
    h = [E('new')] + ([E('out', b=1)] if out else [])
    if how == 0: h += [E('mode', b=m), E('disc', b=d)]
    elif how == 1: h += [E('cli', b=m, c=d)]
    else: h += [E('mode', b=0), E('disc', b=0), E('cli', b=m, c=d)]
    h += [E('ctor', b=3)] if q and how != 1 else []
    ok = m == 0 or d == 0
    h += [E('from')] + ([E('init', b=1, c=q)] if end == 0 else [E('setup', b=1)]) if ok else [E('from'), E('ask', b=2), E('init', b=0, c=q)]
    h += [E('run'), E('mode', b=0), E('disc', b=0), E('ctor', b=2), E('from') if ok and not (d == 4 and end == 0) and not (out and d) else E('run')] + [E('ask', b=k) for k in range(7)] + [E('run'), E('del')]
    return h
