"""Regression files: C20 (specs/Regression.tla)."""
from vlib import *
import random
BOX = {1: {1: (1, 1, 1), 2: (2, 1, 1), 3: (1, 3, 1), 4: (2, 2, 1), 6: (1, 3, 2), 8: (2, 2, 2), 12: (2, 3, 2), 27: (3, 3, 3)},
       2: {4: (1, 1, 4), 6: (3, 2, 1), 8: (2, 2, 2), 9: (1, 1, 9), 16: (4, 4, 1)},
       3: {4: (4, 1, 1), 6: (3, 1, 2), 8: (4, 2, 1), 9: (1, 1, 9), 16: (4, 4, 1)},
       4: {4: (1, 4, 1), 8: (2, 2, 2), 9: (1, 1, 9), 16: (4, 4, 1)}}
def cfg(rec, owns, ns, kinds, ops, dy='{1, 2}', file='{1, 2}', sim=False, vals='{1, 3}'):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules = {%s}\nDy = %s\nFile = %s\nOwns %s\nNs = %s\nVals = %s\nKinds = %s\nMaxOps = %d\nSim = %s\nRec = %s\nINVARIANT %s\n' % (
        '' if rec else '"file"', dy, file, owns, ns, vals, kinds, ops, str(sim).upper(), str(rec).upper(), 'Emit' if rec else 'CanAlways'))
def block(h, np):
    L = []
    for e in h:
        if e['e'] == 'new':
            m = e['own'][0]
            if e['kind'] == 2 and np > 1 and m < 2 * np: m = 9   # (unstructured grids need a cell on every process)
            L.append('new %d %d %d %d %d %d r%d' % (e['d'], e['kind'], *BOX[np][m], e['n'], e['f']))
        elif e['e'] == 'del': L.append('del %d' % e['d'])
        else: L.append('out %d %d %d %d %d %d %d' % (e['d'], e['how'], 100000 * e['b'], 300 if e['b'] else 50000, [1009, 211, 1500][e['a'] % 3], e['a'], 5 * e['a'] % 17))
    return '\n'.join(L) + '\n'
def run(ctx):
    build(ctx)
    q = ctx.quick
    model_check(ctx, 'MCRegression', cfg(False, '<- Distrs', '{0, 1, 2, 5}', '{0, 1}', 2, '{1}', '{1}'), 'Regression, every distribution', must_take=['GNew', 'GOut'])
    model_check(ctx, 'MCRegression', cfg(False, '<- SomeDistrs', '{1, 2}', '{0, 1}', 3 if q else 4), 'Regression, two dycores', must_take=['GNew', 'GOut'])
    for np in (1, 2, 3, 4):
        owns = '<- Own%d' % np
        hs = generate(ctx, 'MCRegression', cfg(True, owns, '{0, 1, 2, 3, 4, 5, 7, 20}', '{0, 1, 2, 3}', 8, '{1, 2, 3}', '{1, 2, 3}', True, '{1, 2, 3, 7, 11, 30, 97}'), 'random histories',
                      simulate=[0, 120, 30, 24, 16][np] * (1 if q else 8), depth=30)
        # every kind, mesh and count by itself
        one = [[dict(e='new', d=1, kind=k, own=[m], n=n, f=1), dict(e='out', d=1, how=(k + n) % 2, b=n % 2, a=a)] + [dict(e='out', d=1, how=0, b=1, a=a + 2)]
               for k in range(4) for m in BOX[np] for n in (0, 1, 2, 3, 5, 30) for a in (1, 12)]
        nx = [0, 150, 24, 18, 12][np] * (1 if q else 10)
        hs += random.Random(ctx.seed).sample(one, min(nx, len(one)))
        blocks = {i: block(h, np) for i, h in enumerate(hs)}
        def prepare(s, ev): return [dict(e, f=int(e['f'][1:])) if e['e'] == 'new' else e for e in ev]
        conform(ctx, 'rgr', blocks, prepare, 'RegressionTrace', trace_cfg('CONSTANTS\nRules = {"file"}\nDy = {1, 2, 3}\nFile = {1, 2, 3}\n'), meta=dict(enumerate(hs)), np=np, timeout=300)
    return finish(ctx, 'model_checking')
