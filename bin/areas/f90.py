"""Functions set from Fortran: C22 (specs/Fortran.tla)."""
from vlib import *
import random
NAMES = ['alpha', 'alpha2', 'alph', 'a', 'porosity_of_the_ground_number_01', 'porosity_of_the_ground_number_02', '~alpha', 'Alpha']
def cfg(rec, names, dy, funcs, ints, q, selq, constq, ops, styles='{0}', sim=False, bulk=False):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules <- NoRules\nName = {%s}\nDy = {%s}\nGFuncs = %s\nGInts = %s\nGQ = %s\nSelQ = %s\nConstQ = %s\nMaxOps = %d\n'
            'Styles = %s\nSim = %s\nBulk = %s\nINVARIANT %s\n' % (', '.join(map(str, range(1, names + 1))), ', '.join(map(str, range(1, dy + 1))), funcs, ints, q, selq, constq, ops,
            styles, str(sim).upper(), str(bulk).upper(), 'Emit' if rec else 'Routed'))
def name(e): return NAMES[e['n'] - 1] + '~' * e['s']
def block(h):
    L = []
    for e in h:
        k = e['e']
        if k in ('new', 'del'): L.append('%s %d' % (k, e['d']))
        elif k == 'reg': L.append('reg %s %d' % (name(e), e['k']))
        elif k == 'sel': L.append('sel %d %d %s' % (e['d'], e['q'], name(e)))
        else: L.append('%s %d %d %d' % (k, e['d'], e['q'], e['k']))
    return '\n'.join(L) + '\n'
def ss(a, b): return '{%s}' % ', '.join(map(str, range(a, b + 1)))
def run(ctx):
    build(ctx)
    q = ctx.quick
    model_check(ctx, 'MCFortran', cfg(False, 2, 2, '{1, 2}', '{1}', '{1, 7}', '{1, 3}', '{1}', 5 if q else 6), 'Fortran', must_take=['GNew', 'GReg', 'GSel', 'GSet', 'GConst'])
    hs = generate(ctx, 'MCFortran', cfg(True, 2, 1, '{1, 2}', '{1}', '{3, 7}', '{1, 3}', '{}', 4 if q else 5), 'short histories', workers=8)
    nx = len(hs)
    hs = random.Random(ctx.seed).sample(hs, min(nx, 400 if q else 6000))
    ALL = ss(1, 11); SEL = '{1, 3, 4, 5, 6}'; CON = '{1, 2, 8}'
    for c, n in ((cfg(True, 8, 2, ss(1, 5) [:-1] + ', 40}', ss(1, 4), ALL, SEL, CON, 16, '{0, 1, 3}', True), 150),
                 (cfg(True, 4, 3, ss(1, 40), ss(1, 36), ALL, SEL, CON, 24, '{0, 2}', True, True), 150),
                 (cfg(True, 3, 1, '{1, 2}', '{1, 2}', '{1, 3, 5, 7}', '{1, 3}', '{1}', 10, '{0, 1}', True), 100)):
        hs += generate(ctx, 'MCFortran', c, 'random histories', simulate=n if q else 10 * n, depth=60)
    blocks = {i: block(h) for i, h in enumerate(hs)}
    num = {}
    for j, s in enumerate(NAMES): num.update({s + '~' * x: j + 1 for x in range(4)})
    def prepare(s, ev): return [dict(e, n=num[e['n']]) if 'n' in e else e for e in ev]
    conform(ctx, 'f90', blocks, prepare, 'FortranTrace', trace_cfg('CONSTANTS\nRules = {"route"}\nName = {1, 2, 3, 4, 5, 6, 7, 8}\nDy = {1, 2, 3}\n'), meta=dict(enumerate(hs)), timeout=600)
    ctx.notes.append('%d short histories enumerated, %d executed in all' % (nx, len(hs)))
    return finish(ctx, 'model_checking')
