"""Library sessions: C04 reg, C05 hook, C21 stage (specs/Library.tla)."""
from vlib import *
import random
RULE = {'C04': 'reg', 'C05': 'hook', 'C21': 'stage'}
SIZES = 'N = 8\nF = 5\nS = 9\nT = 3\n'

def cfg(rec, acts, ops, ses, names='1 .. 3', funcs='1 .. 2', conds='{3, 6}', stages='{2, 5}', hooks='{10, 11}', cells='{2}', pairs='OnePair',
        dy='D0', runs='{1}', opts='{0}', styles='{0}', maxopt=3, ranges='Rng'):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules <- %s\n%sActs = {%s}\nDy <- %s\nPairs <- %s\nGNames = {%s}\nGFuncs = {%s}\nGConds = %s\n'
            'GStages = %s\nGHookIds = %s\nCells = %s\nRanges <- %s\nRuns = %s\nOptNames %s\nMaxOpt = %d\nMaxOps = %d\nMaxSessions = %d\nStyles = %s\n%s' % (
            'None' if rec else 'AllRules', SIZES, ', '.join('"%s"' % a for a in acts.split()), dy, pairs,
            ', '.join(map(str, rng(names))), ', '.join(map(str, rng(funcs))), setof(conds), setof(stages), setof(hooks), cells, ranges, runs,
            '<- ' + opts if opts[0] != '{' else '= ' + opts, maxopt, ops, ses, styles,
            'INVARIANT Emit\n' if rec else 'INVARIANTS LastReg RanOk Nothing Ticked NotTimed\nPROPERTY CondIsolated\n'))
def setof(s): return s if s[0] == '{' else '{%s}' % ', '.join(map(str, rng(s)))
def rng(s):
    a, b = s.split(' .. '); return range(int(a), int(b) + 1)

def block(h):
    L = []
    for e in h:
        k = e['e']
        if k == 'hooks': L += ['hook %d' % (10 + ((e['a'] - 10) + j) % 40) for j in range(1, e['k'] + 1)]
        elif k == 'new': L.append('new %d %d %d %d %d %d %d' % (e['i'], e['cells'], e['disc'], e['mode'], *e['o']))
        elif k == 'sel': L.append('sel %(i)d %(c)d %(n)d %(s)d' % e)
        elif k == 'setf': L.append('setf %(i)d %(c)d %(k)d' % e)
        elif k in ('setup', 'del'): L.append('%s %d' % (k, e['i']))
        else: L.append(' '.join([k] + [str(e[x]) for x in 'abc' if x in e]))
    return '\n'.join(L) + '\n'

def run(ctx):
    build(ctx)
    q = ctx.quick
    if ctx.pid == 'C04':
        model_check(ctx, 'MCLibrary', cfg(False, 'reg new sel setf del fin', 4 if q else 5, 2, names='1 .. 2', conds='{3, 4}', opts='Opt2', maxopt=1), 'Library: registry', must_take=['GReg', 'GNew', 'GSel', 'GSetF', 'GFin'])
        hs = generate(ctx, 'MCLibrary', cfg(True, 'reg new sel fin', 4 if q else 5, 2, names='1 .. 2', opts='Opt2', maxopt=1, conds='{3}', styles='{1}'), 'short registry sessions', workers=8)
        nmax = 500 if q else 6000
        sim = [cfg(True, 'reg many new sel setf del', 18, 2, names='1 .. 8', funcs='1 .. 5', conds='1 .. 6', opts='{0}', styles='{0, 1}'),
               cfg(True, 'reg many new sel setf del fin again', 14, 3, names='1 .. 6', funcs='1 .. 4', conds='{3, 4, 5}', dy='D01', opts='Opt3', styles='{1}')]
    elif ctx.pid == 'C05':
        model_check(ctx, 'MCLibrary', cfg(False, 'hook reg stage fin again tick', 5 if q else 6, 3, names='1 .. 1', funcs='1 .. 1', stages='{5}'), 'Library: hooks', must_take=['GHook', 'GReg', 'GFin', 'GStart'])
        hs = generate(ctx, 'MCLibrary', cfg(True, 'hook reg fin again', 6 if q else 7, 3, names='1 .. 1', funcs='1 .. 1'), 'short sessions', workers=8)
        nmax = 500 if q else 5000
        sim = [cfg(True, 'hook hooks reg fin again many', 12, 3, names='1 .. 4', funcs='1 .. 3', hooks='10 .. 20', runs='{1, 5, 31, 32, 33, 40}', styles='{0, 1}'),
               cfg(True, 'hook hooks reg new del stage tick enable fin setup', 24, 4, names='1 .. 3', funcs='1 .. 2', hooks='{10, 30}', runs='{3, 60, 70}', stages='{2, 5, 6}', dy='D01', pairs='AllPairs')]
    else:
        model_check(ctx, 'MCLibrary', cfg(False, 'stage tick enable fin', 5 if q else 7, 2, stages='{2, 5}'), 'Library: stages', must_take=['GStage', 'GEnter', 'GExit', 'GTick', 'GEnable', 'GFin'])
        hs = generate(ctx, 'MCLibrary', cfg(True, 'stage tick write', 5 if q else 6, 1, stages='{2, 5}'), 'short sessions', workers=8)
        nmax = 400 if q else 5000
        sim = [cfg(True, 'stage tick write enable hook fin', 30, 2, stages='2 .. 9', styles='{0, 1}', hooks='{10}'),
               cfg(True, 'stage tick write enable new setup del fin', 24, 2, stages='{2, 3, 5, 9}', dy='D01', pairs='AllPairs', cells='{1, 2, 5}')]
    rnd = random.Random(ctx.seed)
    nx = len(hs)
    hs = rnd.sample(hs, min(nx, nmax))
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda c: generate(ctx, 'MCLibrary', c, 'random sessions', simulate=200 if q else 4000, depth=60), sim): hs += r
    hs = [h for h in hs if h]
    blocks = {i: block(h) for i, h in enumerate(hs)}
    def prepare(s, ev):
        news = [e for e in hs[s] if e['e'] == 'new']
        out, j = [], 0
        for e in ev:
            if e['e'] == 'New': e = dict(e, disc=news[j]['disc'], mode=news[j]['mode'], cells=news[j]['cells']); j += 1
            out.append(e)
        return out
    conform(ctx, 'lib', blocks, prepare, 'LibraryTrace', trace_cfg('CONSTANTS\nRules <- TraceRules\n' + SIZES), meta=dict(enumerate(hs)),
            tenv={'RULES': RULE[ctx.pid]}, timeout=600)
    ctx.notes.append('%d short sessions enumerated, %d scenarios executed in all' % (nx, len(hs)))
    return finish(ctx, 'model_checking')
