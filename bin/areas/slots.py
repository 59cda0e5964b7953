"""Properties and conditions: C02 value, C03 ctx (specs/Slots.tla)."""
from vlib import *
import random

RULE = {'C02': 'value', 'C03': 'ctx'}
OPT = {1: '-tdy_porosity', 2: '-tdy_permability', 3: '-tdy_thermal_conductivity', 4: '-tdy_residual_satuaration', 5: '-tdy_soil_density',
       6: '-tdy_soil_specific_heat', 12: '-tdy_pressure_bc_value', 14: '-tdy_velocity_bc_value', 15: '-tdy_temperature_bc_value'}

def block(h):
    L = []
    for e in h:
        k = e['e']
        if k == 'new':
            L.append('new %d %s %d %s' % (e['i'], e['disc'], e['mode'], ' '.join('%s %d' % (OPT[q + 1], 10 * v) for q, v in enumerate(e['o']) if v)))
        elif k == 'set': L.append('set %(i)d %(p)d %(f)s %(k)d' % e)
        elif k == 'ctx': L.append('ctx %(i)d %(p)d %(k)d %(id)d %(dtor)d' % e)
        else: L.append('%s %d' % (k, e['i']))
    return '\n'.join(L) + '\n'

def cfg(choices, k, inst, ops, rec, discs='{"MPFA_O"}', modes='{0}', optional=False, setup=False):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules = %s\nInst = %s\nChoices <- %s\nK <- %s\nDiscs = %s\nModes = %s\n'
            'MaxOps = %d\nOptional = %s\nWithSetup = %s\nRecord = %s\n' % ('{}' if rec else '{"value", "ctx", "name"}', inst, choices, k, discs, modes, ops, str(optional).upper(), str(setup).upper(), str(rec).upper())
            + ('INVARIANT Emit\n' if rec else 'INVARIANTS Conserved OneHolder LastWins\nPROPERTIES Isolated ReleasedOnce\n'))

def run(ctx):
    build(ctx)
    model_check(ctx, 'MCSlots', cfg('MCChoices', 'K1', '{0, 1}', 4 if ctx.quick else 5, False, setup=True), 'Slots',
                must_take=['GNew', 'GSet', 'GCtx', 'GDel', 'GSetup'])
    hs = []
    rnd = random.Random(ctx.seed)
    # every pair of settings of the same slot, with destruction or one more setting
    import concurrent.futures as cf
    def pair(a):
        return generate(ctx, 'MCSlots', cfg('PairChoices', 'K2', '{0}', 4 if ctx.quick or a in (2, 3, 7) else 5, True), 'slot %d' % a, tenv={'SLOT_A': str(a), 'SLOT_B': str(a)})
    with cf.ThreadPoolExecutor(5) as ex: exh = list(ex.map(pair, range(1, 17)))
    for h in exh: hs += rnd.sample(h, min(len(h), 120 if ctx.quick else 3000))
    nx = sum(map(len, exh))
    hs += generate(ctx, 'MCSlots', cfg('AllChoices', 'K3', '{0, 1, 2}', 14, True, '{"MPFA_O", "FV_TPF"}', '{0, 1, 2}', True, True), 'random',
                   simulate=500 if ctx.quick else 12000, depth=20)
    blocks = {i: block(h) for i, h in enumerate(hs)}
    def prepare(s, ev):
        news = [e for e in hs[s] if e['e'] == 'new']
        out, j = [], 0
        for e in ev:
            if e['e'] == 'New': e = dict(e, disc=news[j]['disc'], mode=news[j]['mode'], o=news[j]['o']); j += 1
            out.append(e)
        return out
    conform(ctx, 'slots', blocks, prepare, 'SlotsTrace', trace_cfg('CONSTANTS\nRules <- TraceRules\n'), meta=dict(enumerate(hs)),
            tenv={'RULES': RULE[ctx.pid]}, timeout=600)
    ctx.notes.append('%d short behaviours per slot enumerated (%d of all executed with the random ones)' % (nx, len(hs)))
    return finish(ctx, 'model_checking')
