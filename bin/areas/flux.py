"""The discrete problem: C14, C16, C17, C27 (specs/Flux.tla)."""
from vlib import *
from areas.dist import cfg as gcfg
import random
RULES = {'C14': '"same"', 'C16': '"sum"', 'C17': '"bc"', 'C27': '"darcy"'}
BC = ['DIRICHLET_BC', 'NEUMANN_BC', 'SEEPAGE_BC']
KNOWN = 999999
TURNS = [(0, 1, 2, 3, 4, 5, 6, 7), (1, 2, 3, 0, 5, 6, 7, 4), (2, 3, 0, 1, 6, 7, 4, 5), (4, 7, 6, 5, 0, 3, 2, 1), (1, 5, 6, 2, 0, 4, 7, 3), (0, 3, 7, 4, 1, 2, 6, 5)]

def cfg(pid, dims, ops, sim=False, widths='Cube2', kinds='{0, 4}', gs='{0, 11}', levels='FewLvls', pres='FewPress', uniform=True):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules = {%s}\nDims3 <- %s\nWidths <- %s\nKinds = %s\nLevels <- %s\nGs = %s\nPres <- %s\nUniform = %s\nMaxOps = %d\nSim = %s\nRec = %s\n' % (
        RULES[pid], dims, widths, kinds, levels, gs, pres, str(uniform).upper(), ops, str(sim).upper(), str(sim).upper())
        + ('INVARIANT Emit\n' if sim else 'INVARIANTS Conserves Still Seeps Down Derivative Linear\n'))

def parts(nc, np, rnd):
    p = [rnd.randrange(np) for _ in range(nc)]
    for r in range(np):
        if r not in p: p[rnd.choice([c for c in range(nc) if p.count(p[c]) > 1])] = r
    return p

def mesh(C, X, part, src, k, phi4):
    L = ['c ' + ' '.join(map(str, c)) for c in C] + ['v ' + ' '.join(map(str, x)) for x in X]
    if part: L.append('part ' + ' '.join(map(str, part)))
    L += ['src %d' % src] + ['k %d %s %d' % (c, ' '.join(map(str, k[c])), phi4[c]) for c in range(len(C))]
    return L

def boxes(hist, np, rnd, steps):
    """a behaviour of FluxGen, its cells and vertices renumbered; with and without processes"""
    g = hist[0]['g']; nc, nv = g['nc'], len(g['X'])
    new, vert = rnd.sample(range(nc), nc), rnd.sample(range(nv), nv)   # new[i]: the cell of the behaviour that comes i-th
    at = {v: i for i, v in enumerate(vert)}
    turn = [rnd.choice(TURNS) for _ in range(nc)]
    src = 1 if g['kind'] == 4 and rnd.random() < .2 else 0
    C = [[at[g['C'][c][j]] for j in turn[c]] for c in new]
    X = [g['X'][v] for v in vert]
    head = lambda np: mesh(C, X, parts(nc, np, rnd) if np > 1 and rnd.random() < .9 else None, src, [g['k'][c] for c in new], [g['phi4'][c] for c in new])
    L = ['bf %s %d %d' % (' '.join(map(str, f['x'])), f['t'], f['p']) for f in rnd.sample(g['bf'], len(g['bf']))]
    for h in hist[1:]:
        if h['e'] == 'open':
            o = '-tdy_gravity %.17g' % (g['G'] / 998.)
            if h['bp']: o += ' bp -'
            if h['bt']: o += ' bt -'
            default = 1 if g['kind'] == 4 else 0
            if h['ot'] != default or rnd.random() < .3: o += ' -tdy_%s_boundary_condition_type %s' % ('fvtpf' if g['kind'] == 4 else 'mpfao', BC[h['ot']])
            L.append('open %d 1 %s' % (g['kind'], o))
        elif h['e'] == 'close': L.append('close')
        else: L.append(h['e'] + ' ' + ' '.join(str(h['u'][c]) for c in new))
    if steps:
        if hist[-1]['e'] != 'close': L.append('close')
        L += ['open %d 1 -tdy_gravity %.17g -tdy_%s_boundary_condition_type NEUMANN_BC' % (g['kind'], rnd.choice([0, g['G'] / 998.]), 'fvtpf' if g['kind'] == 4 else 'mpfao'),
              'run %g %s' % (rnd.choice([.02, .1]), ' '.join(str(rnd.randint(-3000, -1000)) for _ in new)), 'close']
    return ['\n'.join(head(n) + L) + '\n' for n in sorted({1, np})]

def others(g, np, rnd, kind, src, fd):
    """any mesh and liquid: sums and reach, or derivatives"""
    nc = len(g['C']); nd = 2 if kind in (1, 5, 6) else 1
    k, phi4 = [[rnd.choice([1, 3, 10, 50]) for _ in range(3)] for _ in range(nc)], [rnd.randint(1, 3) for _ in range(nc)]
    # (the DAE needs a cell on every process)
    head = lambda np: mesh(g['C'], g['X'], parts(nc, np, rnd) if np > 1 and (kind == 5 or rnd.random() < .9) else None, src, k, phi4)
    base, dev = rnd.choice([(-8000, 8000), (-1500, 1400), (0, 3000), (-20000, 9000)])
    state = lambda: ' '.join(' '.join([str(base + rnd.randint(-dev, dev))] + ([str(rnd.randint(*((1, 9) if kind == 6 else (200, 400))))] if nd == 2 else [])) for _ in range(nc))
    if fd:
        L = []
        for _ in range(2):
            o = rnd.choice([' bp -', ' -tdy_%s_boundary_condition_type NEUMANN_BC' % ('fvtpf' if kind == 4 else 'mpfao'), ' bp - -tdy_%s_boundary_condition_type SEEPAGE_BC' % ('fvtpf' if kind == 4 else 'mpfao')])
            if kind == 1: o = ' -tdy_mpfao_boundary_condition_type NEUMANN_BC'   # (TH with open boundaries: see below)
            if kind == 1 or (kind == 0 and rnd.random() < .4): o += ' -tdy_time_integration_method TS'
            L += ['open %d 0%s' % (kind, o), 'fd ' + state(), 'close']
        bf = ['bf 0 0 0 0 %d' % rnd.choice([-3000, 0, 5000])]
        return ['\n'.join(head(n) + bf + L) + '\n' for n in sorted({1, np})]
    o = '' if kind == 4 else ' -tdy_mpfao_boundary_condition_type NEUMANN_BC'
    if kind in (1, 5): o += ' -tdy_time_integration_method TS'
    if rnd.random() < .3: o += ' -tdy_gravity 0'
    L = ['open %d 0%s' % (kind, o)] + ['sum ' + state() for _ in range(2)] + ['near %d %d %s' % (c, rnd.choice([1, 40, 300]), state()) for c in rnd.sample(range(nc), min(2, nc))]
    L.append('close')
    return ['\n'.join(head(n) + L) + '\n' for n in sorted({1, np})]

def prepare(one, first):
    """events for TLC; the answers on one process are kept in one, and compared with"""
    def f(sid, ev):
        out, nth = [], 0
        for e in ev:
            e = dict(e)
            if e['e'] == 'open':
                o = e.pop('opt'); d = dict(zip(o[::2], o[1::2])); e.pop('ids')
                t = [v for k, v in d.items() if k.endswith('_boundary_condition_type')]
                e.update(G=round(float(d.get('-tdy_gravity', '9.8068')) * 998), bp='bp' in d, bt='bt' in d, ot=BC.index(t[0]) if t else 1 if e['kind'] == 4 else 0)
            elif e['e'] in ('res', 'jac', 'sum', 'run'):
                if e['e'] == 'jac': e['j'] = sorted(x for r in e['j'] for x in r)
                if first: one[sid, nth] = e
                r = one.get((sid, nth), {})
                e['ref'] = r.get(dict(res='r', jac='j', sum='q', run='sol')[e['e']], [])
                if e['e'] == 'run': e['rsteps'] = r.get('steps', -1)
                nth += 1
            out.append(e)
        return out
    return f

def run(ctx):
    build(ctx)
    q, pid, rnd = ctx.quick, ctx.pid, random.Random(ctx.seed + 5)
    model_check(ctx, 'MCFlux', cfg(pid, 'Rows' if q else 'Rows3', 8, gs='{0, 11}', levels='FewLvls', pres='FewPress'), 'Flux: all states of small rows, closed and with boundaries', must_take=['Choose', 'GClosed', 'GFaces', 'GWhole', 'GPrev', 'GRes', 'GJac', 'GClose'])
    mixed = pid != 'C17'
    for np in (1, 2, 3, 4):
        if np == 1 and pid == 'C14': continue
        k = ([0, 60, 40, 30, 20] if mixed else [0, 120, 60, 40, 30])[np] * (1 if q else 6)
        hs = generate(ctx, 'MCFlux', cfg(pid, 'SimGrids' if q else 'MoreGrids', 13, True, 'SomeWidths', levels='Lvls', gs='{0, 7, 11, 100}', pres='Press', uniform=False), 'problems on boxes', simulate=3 * k, depth=20, seed=ctx.seed + np)
        hs = [h for h in hs if h[0]['g']['nc'] >= np][:k]
        B, meta = {}, {}
        for i, h in enumerate(hs): B[i] = boxes(h, np, rnd, pid in ('C14', 'C16') and rnd.random() < .5); meta[i] = dict(history=h)
        if mixed:
            for src, shapes, maps in ((0, '{"H"}', 'PlexMaps'), (0, '{"W"}', 'PlexMaps'), (1, '{"H", "P", "W", "T"}', 'AllMaps')):
                gs = generate(ctx, 'MCGrid', gcfg(True, 'SimDims' if q else 'MoreDims', shapes, '{%d}' % np, maps, sim=True), 'random grids', simulate=max(6, k // 3), depth=400)
                for j, g in enumerate(g for g in gs if len(g['C']) >= np):
                    i = len(B); fd = pid == 'C27'; kind = 4 if src else rnd.choice([0, 1, 4] if fd else [0, 0, 1, 4, 5, 6])
                    B[i] = others(g, np, rnd, kind, src, fd); meta[i] = dict(grid=g, kind=kind)
        one, cfg_ = {}, trace_cfg('CONSTANTS\nRules = {%s}\n' % RULES[pid])
        if pid == 'C14' and np > 1:   # (what one process answers is not judged here)
            ev, crashed = run_harness(ctx, 'flux', {i: b[0] for i, b in B.items()}, 1, 300)
            f = prepare(one, True)
            for s, e in ev.items(): f(s, e)
            for s in crashed: B.pop(s, None)
            conform(ctx, 'flux', {i: b[-1] for i, b in B.items()}, prepare(one, False), 'FluxTrace', cfg_, meta=meta, np=np, timeout=300)
        else:
            if pid == 'C27' and np == 1:   # flow through boundary faces is not in the Jacobian of TH
                B[KNOWN] = ['\n'.join(mesh([[0, 1, 2, 3, 4, 5, 6, 7]], [[x, y, z] for z in (0, 2) for x, y in ((0, 0), (2, 0), (2, 2), (0, 2))], None, 0, [[1, 1, 1]], [1])
                                      + ['bf 0 0 0 0 0', 'open 1 0 bp - -tdy_time_integration_method TS', 'fd -3000 300', 'close']) + '\n']
                meta[KNOWN] = dict(known='one cell with temperature, open to the outside')
            conform(ctx, 'flux', {i: b[-1] for i, b in B.items()}, prepare(one, True), 'FluxTrace', cfg_, meta=meta, np=np, timeout=300, key=lambda s, b: 'th-boundary-jacobian' if s == KNOWN and b['kind'] == 'rejected' and b['event'].get('e') == 'fd' and b['event'].get('ok') else None)
    return finish(ctx, 'model_checking')
