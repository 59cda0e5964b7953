"""Options and parameters: C19 (specs/Options.tla)."""
from vlib import *
import random

def S(x): return '{%s}' % ', '.join('"%s"' % a for a in x.split())
ALLD = 'MPFA_O MPFA_O_DAE MPFA_O_TRANSIENTVAR BDM WY FV_TPF'
def cfg(rec, acts, put, api, opts='AllOpts', vals='{1, 2, 3}', modes='RICHARDS', discs='MPFA_O', sim=False, rules=False):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules <- %s\nActs = %s\nGOpts <- %s\nGVals = %s\nGModes = %s\nGDiscs = %s\nMaxPut = %d\nMaxApi = %d\nSim = %s\n%s' % (
            'AllRules' if rules else 'NoRules', S(acts), opts, vals, S(modes), S(discs), put, api, 'TRUE' if sim else 'FALSE',
            'INVARIANT Emit\n' if rec else 'INVARIANTS TypeOK Untouched Heard Reasoned\nPROPERTIES CallsWin Local\n'))

NEED = 'porosity permeability residual conductivity soil_density soil_heat'.split()
def block(h):
    L, got = [], set()
    for e in h:
        if e['e'] == 'put': L.append('put %(o)s %(v)s' % e)
        elif e['e'] == 'set': L.append('set %(p)s %(v)s' % e); got.add(e['p'])
        elif e['e'] == 'ready': L += ['set %s 0.375' % p for p in NEED if p not in got]
        else: L.append(e['e'])
    return '\n'.join(L) + '\n'

def run(ctx):
    build(ctx)
    q = ctx.quick
    must = ['GPut', 'GNew', 'GMode', 'GDisc', 'GApi', 'GFrom', 'GReady', 'GSetup', 'GDrive']
    model_check(ctx, 'MCOptions', cfg(False, 'put new api from setup drive', 1, 1, vals='{1, 3}', modes='RICHARDS TH', discs='MPFA_O FV_TPF'), 'Options: an option and a call', must_take=must)
    if not q:
        model_check(ctx, 'MCOptions', cfg(False, 'put new api from setup drive', 1, 2, vals='{1, 3}', modes='RICHARDS TH', discs='MPFA_O BDM'), 'Options: an option and two calls', must_take=must)
        model_check(ctx, 'MCOptions', cfg(False, 'put new from drive', 2, 0, vals='{1, 3}', modes='RICHARDS TH', discs='MPFA_O FV_TPF'), 'Options: two options', must_take=['GPut', 'GNew', 'GMode', 'GDisc', 'GFrom', 'GDrive'])
    rnd = random.Random(ctx.seed)
    one = generate(ctx, 'MCOptions', cfg(True, 'put new from setup drive', 1, 0, modes='RICHARDS TH SALINITY', discs=ALLD), 'one option', workers=8)
    two = generate(ctx, 'MCOptions', cfg(True, 'put new from drive', 2, 0, opts='OthersNamed', vals='{0}', discs='MPFA_O'), 'pairs of options', workers=8)
    tpf = generate(ctx, 'MCOptions', cfg(True, 'put new from drive', 2, 0, opts='OthersNamed', vals='{0}', discs='FV_TPF'), 'pairs of options', workers=8)
    api = generate(ctx, 'MCOptions', cfg(True, 'put new api from setup drive', 1, 1, vals='{1}', modes='RICHARDS TH', discs='MPFA_O FV_TPF BDM'), 'an option and a call', workers=8)
    nx = len(one) + len(two) + len(tpf) + len(api)
    hs = rnd.sample(one, min(len(one), 900 if q else 4000)) + two + rnd.sample(tpf, 200 if q else len(tpf)) + rnd.sample(api, min(len(api), 500 if q else 5000))
    sims = [cfg(True, 'put new api from setup drive', 12, 4, opts='OthersNamed', vals='{1, 2}', modes='RICHARDS', discs=ALLD, sim=True),
            cfg(True, 'put new api from setup drive', 8, 3, opts='AllOpts', vals='{1, 2}', modes='RICHARDS TH SALINITY', discs='MPFA_O FV_TPF', sim=True),
            cfg(True, 'put new api from drive', 6, 3, opts='OthersNamed', vals='{1, 2, 3}', modes='TH', discs='MPFA_O', sim=True),
            cfg(True, 'put new from setup drive', 4, 0, opts='AllOpts', vals='{1, 2}', modes='TH SALINITY RICHARDS', discs='MPFA_O BDM', sim=True)]
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: generate(ctx, 'MCOptions', c, 'random command lines', simulate=500 if q else 6000, depth=40), sims): hs += [h for h in r if h]
    blocks = {i: block(h) for i, h in enumerate(hs)}
    conform(ctx, 'opts', blocks, lambda s, e: e, 'OptionsTrace', trace_cfg('CONSTANTS\nRules <- TraceRules\n'), meta=dict(enumerate(hs)), tenv={'RULES': 'options'}, timeout=700)
    ctx.notes.append('%d histories with one or two options enumerated, %d histories executed in all' % (nx, len(hs)))
    return finish(ctx, 'model_checking')
