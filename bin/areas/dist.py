"""Unstructured grids over processes: C12, C13 and part of C15 (specs/Distribute.tla)."""
from vlib import *
import random
RULES = {'C12': '"once", "move"', 'C13': '"distribute"', 'C15': '"mesh"'}
MAPS = dict(OnlyId=1, AllMaps=1)
def cfg(rec, dims, shapes, nps, maps='AllMaps', sim=False, rules='"distribute"', orders=True):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules = {%s}\nDims <- %s\nShapes = %s\nMaps <- %s\nNps = %s\nSim = %s\nRec = %s\nOrders = %s\nINVARIANT %s\n' % (
        '' if rec else rules, dims, shapes, maps, nps, str(sim).upper(), str(rec).upper(), str(orders).upper(), 'Emit' if rec else 'Sound'))
def block(g, kind, free, rnd, moves):
    m = max(len(c) for c in g['C'])
    L = ['c ' + ' '.join(map(str, c)) for c in g['C']] + ['v ' + ' '.join(map(str, x)) for x in g['X']]
    if not free: L.append('part ' + ' '.join(map(str, g['part'])))
    # (the table of cells is usually eight wide; the widest cell is enough)
    L.append('load %d %d' % (kind, rnd.choice([m, 8])))
    for op in moves: L.append('%s %d %d' % (op, rnd.randint(0, 50), rnd.randint(1, 97)))
    return '\n'.join(L) + '\n'
def run(ctx):
    build(ctx)
    if ctx.pid != 'C13': run_plex(ctx)
    return run_dist(ctx)
def plex_block(g, kind, free, setup, rnd, moves):
    L = ['c ' + ' '.join(map(str, c)) for c in g['C']] + ['v ' + ' '.join(map(str, x)) for x in g['X']]
    if not free: L.append('part ' + ' '.join(map(str, g['part'])))
    L.append('load %d' % kind)
    if setup: L.append('setup')
    for op in moves: L.append('%s %d %d' % (op, rnd.randint(0, 50), rnd.randint(1, 97)))
    return '\n'.join(L) + '\n'
def run_plex(ctx):
    """meshes held by PETSc (specs/Plex.tla)"""
    q, rnd, c12 = ctx.quick, random.Random(ctx.seed + 1), ctx.pid == 'C12'
    for np in (1, 2, 3, 4):
        hs = []
        for sh in '"H"', '"W"':
            hs += generate(ctx, 'MCGrid', cfg(True, 'SimDims' if q else 'MoreDims', '{%s}' % sh, '{%d}' % np, 'PlexMaps', sim=True), 'random grids', simulate=[0, 16, 14, 10, 6][np] * (1 if q else 8), depth=400)
        blocks = {}
        for i, h in enumerate(hs):
            moves = rnd.sample(['n2g', 'g2n', 'g2l', 'l2g', 'n2l'] * 2, 6 if c12 else 1)
            kind = rnd.choice([0, 1, 2, 3, 4, 5] if c12 else [0, 0, 1, 4, 5])
            blocks[i] = plex_block(h, kind, rnd.random() < .2, not c12, rnd, moves)
        conform(ctx, 'mesh', blocks, lambda s, ev: ev, 'PlexTrace', trace_cfg('CONSTANTS\nRules = {%s}\n' % RULES[ctx.pid]), meta=dict(enumerate(hs)), np=np, timeout=300)
def run_dist(ctx):
    q, pid = ctx.quick, ctx.pid
    model_check(ctx, 'MCGrid', cfg(False, 'CubeDims', '{"H", "P", "W", "T"}', '{1}', orders=False), 'Grids: every shape and map', must_take=['Cut', 'NumberVertex', 'NumberCell', 'Done'])
    model_check(ctx, 'MCGrid', cfg(False, 'RowDims', '{"H"}', '{1, 2, 3}', 'OnlyId'), 'Distribution: every numbering and partition of small rows', must_take=['Done'])
    model_check(ctx, 'MCGrid', cfg(False, 'PairDims', '{"H", "W"}', '{2}', 'OnlyId', orders=False), 'Distribution: every partition of small mixed grids', must_take=['Done'])
    rnd = random.Random(ctx.seed)
    # small rows: all numberings, turnings and partitions, sampled
    small = generate(ctx, 'MCGrid', cfg(True, 'SquareDims', '{"H"}', '{2, 3}', 'OnlyId'), 'all numberings and partitions of 2 and 4 hexahedra')
    for np in (1, 2, 3, 4):
        hs = generate(ctx, 'MCGrid', cfg(True, 'SimDims' if q else 'MoreDims', '{"H", "P", "W", "T"}', '{%d}' % np, sim=True), 'random grids', simulate=[0, 60, 50, 40, 20][np] * (1 if q else 8), depth=400)
        hs += rnd.sample([h for h in small if h['np'] == np], min([0, 0, 24, 24, 0][np] * (1 if q else 10), len([h for h in small if h['np'] == np])))
        if np == 1: hs += [dict(h, np=1, part=[0] * len(h['C'])) for h in rnd.sample(small, 12)]
        hs = [h for h in hs if len(h['C']) >= np]   # (ParMETIS needs a cell in every part of the file)
        blocks = {}
        for i, h in enumerate(hs):
            moves = rnd.sample(['n2g', 'g2n', 'g2l', 'l2g', 'n2l'] * 2, 6 if pid == 'C12' else 1)
            kind = rnd.choice([0, 1, 2, 3] if pid == 'C12' else [0, 1])
            blocks[i] = block(h, kind, False, rnd, moves)
        conform(ctx, 'dist', blocks, lambda s, ev: ev, 'DistributeTrace', trace_cfg('CONSTANTS\nRules = {%s}\n' % RULES[pid]), meta=dict(enumerate(hs)), np=np, timeout=300)
    return finish(ctx, 'model_checking')
