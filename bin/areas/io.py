"""Files of a run: C10, C11, C26 (specs/Files.tla)."""
from vlib import *
from areas.dist import cfg as gcfg
from math import prod
import random, xml.etree.ElementTree as ET
RULES = {'C10': '"restart"', 'C11': '"output"', 'C26': '"props"'}
OPS = {'C10': '"open", "openic", "state", "chk", "user", "read", "readu", "close"', 'C11': '"open", "state", "out", "write", "close"', 'C26': '"open", "openic", "close", "user"'}
FIELD = {'LiquidPressure': 0, 'LiquidTemperature': 1, 'LiquidMass': 1, 'LiquidSaturation': -1}

def cfg(pid, ncs, nps, nds, ops, times='{5, 100, 2500, 30000}', sim=False, rec=False, vals='{1, 3, 7}', sharing='owned'):
    return ('SPECIFICATION GSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\nRules = {%s}\nNcs = %s\nNps = %s\nNds = %s\nVals = %s\nTimes = %s\nOps = {%s}\nMaxOps = %d\nSharing = "%s"\nSim = %s\nRec = %s\n' % (
        RULES[pid], ncs, nps, nds, vals, times, OPS[pid], ops, sharing, str(sim).upper(), str(rec).upper())
        + ('INVARIANT Emit\n' if rec else 'INVARIANTS Sound Whole1 Files1\n'))

def name(t): return '%.5e_chk.h5' % t

def block(pid, g, hist, kind, src, rnd, np):
    """one behaviour on one grid"""
    nc = len(g['C'])
    L = ['c ' + ' '.join(map(str, c)) for c in g['C']] + ['v ' + ' '.join(map(str, x)) for x in g['X']] + ['src %d' % src]
    nd, made, ds, openrun = (2 if kind in (1, 5) else 1), set(), {}, False
    if pid == 'C26':
        if rnd.random() < .9: L.append('mkpr p.h5 Porosity 16384 %d %d' % (rnd.randint(0, 9), rnd.randint(1, 9))); made.add('por')
        if rnd.random() < .8 or not made:
            for d in 'XYZ': L.append('mkpr p.h5 K%s 1e12 %d %d' % (d, rnd.randint(0, 9), rnd.randint(0, 9)))
            made.add('perm')
    for h in hist:
        e = h['e']
        if e == 'open':
            part = [((h['y'] % 7) * c * c + (h['y'] // 7) * c + h['y'] // 50 * (c // 2)) % np for c in range(nc)]
            for r in range(np):   # (every process has a cell)
                if r not in part and nc >= np: part[[c for c in range(nc) if part.count(part[c]) > 1][0]] = r
            if rnd.random() < .8: L.append('part ' + ' '.join(map(str, part)))
            k = kind
            o = ''
            if h['ic'] == -2: o += ' -ic_file u.h5' + (' -ic_dataset IC' if rnd.random() < .5 else '')
            elif h['ic'] >= 0: o += ' -ic_file %s -ic_dataset %s' % (name(h['ic']), ds[h['ic']])
            if 'por' in made and rnd.random() < .8: o += ' -init_porosity_file p.h5' + (' -porosity_dataset Porosity' if rnd.random() < .3 else '')
            if 'perm' in made and rnd.random() < .8: o += ' -init_permeability_file p.h5 -permeability_dataset K -anisotropic_perm -'
            drive = bool(o) or (pid == 'C10' and rnd.random() < .1)
            if drive and kind in (1, 5): o = ' -tdy_time_integration_method TS' + o
            L.append('open %d %d%s' % (k, drive, o))
            if pid == 'C11': L.append('state s %d %d' % (rnd.randint(0, 9), rnd.randint(0, 9)))
        elif e == 'state': L.append('state %s %d %d%s' % ('s' if pid == 'C11' else 'n', h['a'], h['c'], ' upd' if rnd.random() < .5 and pid == 'C11' else ''))
        elif e == 'chk': L.append('chk %d %d' % (h['t'], h['step'])); ds[h['t']] = 'IC' if src else 'fields/IC'
        elif e == 'user': L.append('mkic u.h5 IC %d %d %d' % (nd, h['a'], h['c']))
        elif e == 'readic': L.append('readic u.h5' if h['t'] == -2 else 'readic %s %s' % (name(h['t']), ds[h['t']]))
        elif e == 'close': L.append('close')
        elif e == 'out': L.append('out hdf5')
        elif e == 'write': L.append('write %d' % h['t'])
    if pid == 'C10': L.append('dump _chk.h5')
    if pid == 'C11': L += (['close'] if [h['e'] for h in hist if h['e'] in ('open', 'close')][-1:] == ['open'] else []) + ['dump out.h5']
    return '\n'.join(L) + '\n'

def describe(lines):
    """the companion description as a record"""
    d = dict(ok=False, cells=[], verts=[], n=-1, shape='', attrs=[])
    txt = '\n'.join(lines).strip()
    m = re.search(r'<!ENTITY (\w+) "([^"]*)">', txt)
    if m: txt = txt.replace('&%s;' % m.group(1), m.group(2))
    try: root = ET.fromstring(re.sub(r'<!DOCTYPE[^>\[]*(\[[^\]]*\])?\s*>', '', txt))
    except ET.ParseError: return d
    d['ok'] = root.tag == 'Xdmf'
    ints = lambda s: [int(x) for x in (s or '').split() if re.fullmatch(r'\d+', x)]
    for it in root.iter('DataItem'):
        if it.get('Name') == 'cells': d['cells'] = ints(it.get('Dimensions'))
        if it.get('Name') == 'vertices': d['verts'] = ints(it.get('Dimensions'))
    shapes, counts = set(), set()
    for g in root.iter('Grid'):
        for t in g.findall('Topology'): shapes.add(t.get('Type') or t.get('TopologyType')); counts.add(int(t.get('NumberOfElements')))
        tm = [x.get('Value') for x in g.findall('Time')]
        for a in g.findall('Attribute'):
            sizes, path, where = set(), '', None
            for it in a.iter('DataItem'):
                body = ints(it.text)
                if it.get('Dimensions') == '3 3' and len(body) == 9: sizes.add(prod(body[6:])); d['ok'] &= body[:6] == [0, 0, 0, 1, 1, 1]   # (all of it)
                else: sizes.add(prod(ints(it.get('Dimensions'))))
                if ':/' in (it.text or ''): where, path = it.text.strip().split(':', 1)
            q = path.split('/')[-1].split('_', 1)
            t = tm or q[:1]
            d['attrs'].append(dict(t=round(float(t[0])) if t[0] else -1, d=FIELD.get(q[-1].strip(), 9), path=path, n=sorted(sizes)))
            d['ok'] &= where == 'out.h5'
    if len(shapes) == 1: d['shape'] = shapes.pop()
    if len(counts) == 1: d['n'] = counts.pop()
    return d

def prepare(pid, C, X):
    def f(sid, ev):
        out = []
        for e in ev:
            e = dict(e)
            if e['e'] == 'open':
                o = dict(zip(e['opt'][::2], e['opt'][1::2]))
                C[sid], X[sid] = e['C'], e['X']
                e.update(por=o.get('-init_porosity_file', ''), pords='Porosity', perm=o.get('-init_permeability_file', ''), permds=o.get('-permeability_dataset', ''),
                         ic=o.get('-ic_file', ''), icds=o.get('-ic_dataset', 'IC').split('/')[-1])
                e['ict'] = stamp(e['ic'])
                for k in ('C', 'X', 'opt', 'cn', 'nv'): del e[k]
            elif e['e'] == 'readic': e['ds'] = e['ds'].split('/')[-1]; e['t'] = stamp(e['n'])
            elif e['e'] == 'dump' and e['suffix'] == '_chk.h5':
                e = dict(e='chks', files=[dict(t=x['t'], step=x['step'], ic=([d['x4'] for d in x['ds'] if d['n'].split('/')[-1] == 'IC'] + [[]])[0]) for x in e['files']])
            elif e['e'] == 'dump':
                fs = [x for x in e['files'] if x['n'] == 'out.h5']
                dss = fs[0]['ds'] if fs else []
                fields = []
                for d in dss:
                    m = re.fullmatch(r'/cell_fields/([^_]*)_(.*)', d['n'])
                    if m: fields.append(dict(t=round(float(m.group(1))), q=m.group(2).strip(), d=FIELD.get(m.group(2).strip(), 9), x4=d['x4'], e5=d['e5']))
                get = lambda n: ([d for d in dss if d['n'] == n] + [None])[0]
                cells, verts = get('/viz/topology/cells'), get('/geometry/vertices')
                w = lambda d, q: [[x // q for x in d['x4'][i * d['dim'][1]:(i + 1) * d['dim'][1]]] for i in range(d['dim'][0])] if d and len(d['dim']) == 2 else []
                e = dict(e='outs', has=bool(fs), hasd=bool(e['xmf']), fields=fields, rows=w(cells, 4), verts=w(verts, 4), d=describe(e['xmf']), C=C.get(sid, []), X=X.get(sid, []), paths=[d['n'] for d in dss])
            elif e['e'] == 'diag': continue
            out.append(e)
        return out
    def stamp(n):
        m = re.fullmatch(r'(.*)_chk.h5', n)
        return round(float(m.group(1))) if m else -2
    return f

def run(ctx):
    build(ctx)
    q, pid, rnd = ctx.quick, ctx.pid, random.Random(ctx.seed + 3)
    if pid != 'C26':
        model_check(ctx, 'MCFiles', cfg(pid, '{2, 3}', '{1, 2}', '{1, 2}', 5 if q else 6, times='{5, 7}', vals='{1, 3}'), 'Files: every partition of 2 and 3 cells, histories of %d' % (5 if q else 6),
                    must_take=['GOpen', 'GSet', 'GClose'] + (['GChk', 'GRead', 'GUser', 'GReadU', 'GOpenIC'] if pid == 'C10' else ['GOut', 'GWrite']))
    else:
        model_check(ctx, 'MCFiles', cfg(pid, '{2, 3, 4}', '{1, 2, 3}', '{1, 2}', 3), 'Files: every partition of 2-4 cells', must_take=['GOpen', 'GUser', 'GOpenIC'])
    for np in (1, 2, 3, 4):
        k = [0, 30, 30, 24, 14][np] * (1 if q else 8)
        gs = []
        for sh in '"H"', '"W"':
            gs += generate(ctx, 'MCGrid', gcfg(True, 'SimDims' if q else 'MoreDims', '{%s}' % sh, '{%d}' % np, 'PlexMaps', sim=True), 'random grids', simulate=k, depth=400)
        hs = generate(ctx, 'MCFiles', cfg(pid, '{4}', '{2}', '{2}', {'C10': 12, 'C11': 9, 'C26': 5}[pid], sim=True, rec=True), 'histories', simulate=5 * k, depth=20)
        gs = [g for g in gs if len(g['C']) >= np]; rnd.shuffle(gs); hs = [h for h in hs if sum(e['e'] == 'open' for e in h)]
        useful = [h for h in hs if any(e['e'] in (('readic',) if pid == 'C10' else ('write',) if pid == 'C11' else ('open',)) or e.get('ic', -1) != -1 for e in h)]
        hs = (useful + hs)[:max(len(gs), k)]
        blocks, meta = {}, {}
        for i, (g, h) in enumerate(zip(gs, hs)):
            src = rnd.choice([0, 0, 1]) if pid != 'C11' else 0
            kind = 4 if src else rnd.choice([0, 1, 4, 5] if pid != 'C26' else [0, 1, 4])
            blocks[i] = block(pid, g, h, kind, src, rnd, np)
            meta[i] = dict(grid=g, history=h, kind=kind)
        conform(ctx, 'io', blocks, prepare(pid, {}, {}), 'FilesTrace', trace_cfg('CONSTANTS\nRules = {%s}\n' % RULES[pid]), meta=meta, np=np, timeout=300)
    return finish(ctx, 'model_checking')
