"""Time integration: C06 tile, C07 dt, C08 fail, C09 sched."""
from vlib import *

RULE = {'C06': 'tile', 'C07': 'dt', 'C08': 'fail', 'C09': 'sched'}
ALL = 'Rules = {"tile", "dt", "fail", "sched"}\n'

def val(d): return repr(d['n'] / 4.0 ** d['k'])

def block(h):
    c = h[0]['cfg']
    L = []
    if c['ts']: L.append('ts')
    elif not c['retry']: L.append('disc MPFA_O')
    L += ['opt -tdy_dt_init ' + val(h[0]['d0']), 'opt -tdy_dt_growth_factor ' + val(c['growth']),
          'opt -tdy_dt_reduction_factor ' + val(c['red']), 'opt -tdy_dt_max ' + val(c['max'])]
    if c['chk']: L += ['opt -enable_checkpoint', 'opt -checkpoint_timestep_interval %d' % c['chk']]
    if c['out']: L += ['opt -output_timestep_interval %d' % c['out']]
    L.append('outs ' + ''.join(e['oc'] for e in h if e['e'] == 'Solve'))
    L.append('go')
    for e in h:
        if e['e'] == 'Run': L.append('run %d %d' % (e['target']['n'], e['target']['k']))
        if e['e'] == 'SetStep': L.append('step %d %d' % (e['dt']['n'], e['dt']['k']))
    return '\n'.join(L) + '\n'

def cascade(n, red, cfg0):
    """n consecutive failures inside a run, then convergence; hand-shaped behaviours of
    the specification with the code's real bound on failures."""
    D = lambda a, k=0: dict(n=a, k=k)
    c = dict(cfg0, red=red)
    h = [dict(e='Begin', cfg=c, d0=D(2)), dict(e='Run', target=D(6))]
    h += [dict(e='Solve', oc=x) for x in 'C' + 'F' * n + 'CCCC']
    h += [dict(e='Run', target=D(20))]
    return h

def run(ctx):
    rule = RULE[ctx.pid]
    build(ctx)
    mc = lambda cf, inc, st, r, s, f, rec, inv: (
        'SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n' + ALL +
        'MaxCuts = %d\nCfgs <- %s\nIncs <- %s\nSteps <- %s\nMaxRuns = %d\nMaxSolves = %d\nMaxFails = %d\nRecord = %s\n' %
        (25 if rec else 2, cf, inc, st, r, s, f, 'TRUE' if rec else 'FALSE') +
        ('INVARIANTS Emit\n' if rec else 'INVARIANTS ClockInRange BoundedCuts StateIsLastStep ChkBehind\n'
         'PROPERTIES GrowOrCap FailIsolated EndsAtTarget ClockMonotone\n'))
    model_check(ctx, 'MCTimeIntegrator', mc('CfgsMC', 'IncsMC', 'StepsMC', 2 if ctx.quick else 3, 6 if ctx.quick else 8, 3, False, True),
                'TimeIntegrator', must_take=['GSetStep', 'GRun', 'GSolve', 'GChk', 'GOut', 'GEnd'])
    hs = generate(ctx, 'MCTimeIntegrator', mc('CfgsX', 'IncsX', 'StepsX', 2, 5 if ctx.quick else 7, 2 if ctx.quick else 3, True, False), 'exhaustive')
    nx = len(hs)
    hs += generate(ctx, 'MCTimeIntegrator', mc('CfgsR', 'IncsR', 'StepsR', 4, 22, 6, True, False), 'random',
                   simulate=250 if ctx.quick else 6000, depth=90)
    D = lambda a, k=0: dict(n=a, k=k)
    base = dict(growth=D(1), red=D(1), max=D(1000000), retry=True, ts=False, chk=1, out=1)
    for n in (1, 2, 23, 24, 25, 26, 40): hs.append(cascade(n, D(1), base))
    for n in (25,): hs.append(cascade(n, D(1, 1), base))
    for n in (1, 2): hs.append(cascade(n, D(1, 1), dict(base, retry=False, out=0)))
    blocks = {i: block(h) for i, h in enumerate(hs)}
    def prepare(s, ev):
        return [dict(ev[0], cfg=hs[s][0]['cfg'], d0=hs[s][0]['d0'])] + ev[1:]
    conform(ctx, 'ti', blocks, prepare, 'TimeIntegratorTrace', trace_cfg('CONSTANTS\nMaxCuts = 25\nRules <- TraceRules\n'),
            meta=dict(enumerate(hs)), tenv={'RULES': rule}, timeout=600)
    ctx.notes.append('%d behaviours enumerated exhaustively in the small configuration, %d random, %d failure cascades' % (nx, len(hs) - nx - 10, 10))
    return finish(ctx, 'model_checking')
