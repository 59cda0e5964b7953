"""Characteristic curves: C18 (specs/Curves.tla)."""
from vlib import *
import random

def cfg(rec, acts, ops, p=2, kinds='{0, 1}', types='{0, 1}', q='{0, 1}', steps='{0, 1}', rots='{0}', discs='{0}', sim=False):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules <- %s\nSim = %s\nActs = {%s}\nP = {%s}\nKinds = %s\nTypes = %s\nQ = %s\nSteps = %s\nRots = %s\nDiscs = %s\nMaxOps = %d\n%s' % (
            'NoRules' if rec else 'AllRules', 'TRUE' if sim else 'FALSE', ', '.join('"%s"' % a for a in acts.split()), ', '.join(map(str, range(p))), kinds, types, q, steps, rots, discs, ops,
            'INVARIANT Emit\n' if rec else 'INVARIANT LastWins\nPROPERTY Apart\n'))
R = '{%s}' % ', '.join(map(str, range(11)))

def npts(h): return max([2] + [x + 1 for e in h for x in (e.get('p', []) if e['e'] == 'as' else [e['p']] if e['e'] == 'sweep' else [e.get('c', 1) - 1])])
def block(h):
    L = ['n %d' % npts(h)]
    for e in h:
        if e['e'] == 'as': L.append('as %d %d %d %d %s' % (e['q'], e['t'], e['r'], len(e['p']), ' '.join('%d %d' % x for x in zip(e['p'], e['m']))))
        elif e['e'] == 'dy': L.append('dy %(d)d %(c)d %(m)d' % e)
        elif e['e'] == 'up': L.append('up %(r)d' % e)
        else: L.append('sweep %(p)d' % e)
    return '\n'.join(L) + '\n'

def run(ctx):
    build(ctx)
    q = ctx.quick
    model_check(ctx, 'MCCurves', cfg(False, 'as', 2 if q else 3, steps='{1}' if not q else '{0, 1}', q='{0}' if not q else '{0, 1}'), 'Curves: assignments', must_take=['GAssign'])
    hs = []
    for kind in (0, 1): hs += generate(ctx, 'MCCurves', cfg(True, 'as', 3, kinds='{%d}' % kind, steps='{1}', rots='{4}'), 'short histories', workers=8)
    nx = len(hs)
    rnd = random.Random(ctx.seed)
    hs = rnd.sample(hs, min(nx, 700 if q else 14000))
    sims = [cfg(True, 'as', 8, 6, q='0 .. 4', steps='0 .. 3', rots=R, sim=True), cfg(True, 'as sweep', 10, 4, q='0 .. 4', steps='0 .. 3', rots=R, sim=True),
            cfg(True, 'dy up as sweep', 8, 5, q='0 .. 4', steps='0 .. 3', rots=R, discs='0 .. 6', sim=True), cfg(True, 'dy up', 4, 3, rots=R, discs='0 .. 6', sim=True)]
    sims = [re.sub(r'(\d) \.\. (\d)', lambda m: '{%s}' % ', '.join(map(str, range(int(m.group(1)), int(m.group(2)) + 1))), s) for s in sims]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: generate(ctx, 'MCCurves', c, 'random histories', simulate=300 if q else 6000, depth=30), sims): hs += [h for h in r if h]
    # every model and parameter choice swept, every kind of dycore at every level
    for t in (0, 1):
        for u in (0, 1):
            for a in range(4):
                for b in range(5 if u else 4):
                    hs.append([dict(e='as', q=0, t=t, p=[1, 0], m=[a, (a + 1) % 4], r=a + b), dict(e='as', q=1, t=u, p=[0, 1], m=[(b + 1) % 4, b], r=3), dict(e='sweep', p=1), dict(e='sweep', p=0)])
    for d in range(7):
        for m in range(4): hs.append([dict(e='dy', d=d, c=4, m=m)] + [dict(e='up', r=r) for r in range(10)])
    blocks = {i: block(h) for i, h in enumerate(hs)}
    conform(ctx, 'cc', blocks, lambda s, e: e, 'CurvesTrace', trace_cfg('CONSTANTS\nRules <- TraceRules\n'), meta=dict(enumerate(hs)), tenv={'RULES': 'curves'}, timeout=700)
    ctx.notes.append('%d short histories enumerated, %d histories executed in all' % (nx, len(hs)))
    return finish(ctx, 'model_checking')
