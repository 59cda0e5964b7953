#!/usr/bin/env python3
"""Writes specs/CurvesTable.tla and harness/cc_table.h: the documented saturation
and relative permeability curves, evaluated at a few parameters and levels from
their textbook formulas (not from the library's code)."""
import os
from math import exp, sqrt
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# saturation: type 0 Gardner (n, m, alpha), type 1 Van Genuchten (m, alpha)
SAT = [[(0.5, 1.0, 1.0), (0.5, 2.0, 0.5), (0.2, 0.5, 0.25), (0.9, 0.8, 2.0)], [(0.5, 1.0), (0.75, 0.5), (0.25, 2.0), (0.8, 0.125)]]
# relative permeability: type 0 Irmay (m), type 1 Mualem (m, smoothed between x1 and 1)
KR = [[(2.0,), (3.0,), (1.0,), (1.5,)], [(0.5, 0.99), (0.75, 0.99), (0.25, 0.99), (0.8, 0.99), (0.6, 0.9)]]
PC = [-1000.0, -0.25, 0.0, 0.02, 0.375, 0.75, 4. / 3, 2.4, 10.0, 80.0]     # capillary pressures
SE = [0.0, 0.05, 0.2, 0.5, 0.8, 0.93, 0.96, 0.985, 0.992, 0.998, 1.0]      # effective saturations
def se(t, q, pc):
    if pc <= 0: return 1.0
    if t == 0: n, m, a = SAT[0][q]; return exp(-a * pc / m)
    m, a = SAT[1][q]; return (1 + (a * pc) ** (1 / (1 - m))) ** -m
def kr(t, q, s):
    if s >= 1: return 1.0
    if t == 0: return s ** KR[0][q][0]
    m, x1 = KR[1][q]
    f = lambda x: sqrt(x) * (1 - (1 - x ** (1 / m)) ** m) ** 2
    if s <= x1: return f(s)
    # the cubic through (x1, f(x1)) and (1, 1) with slopes f'(x1) and 0
    y = x1 ** (1 / m); w = 1 - (1 - y) ** m
    d = 0.5 / sqrt(x1) * w * w + sqrt(x1) * 2 * w * (1 - y) ** (m - 1) * y / x1
    h = 1 - x1; u = (s - x1) / h
    return (2 * u ** 3 - 3 * u * u + 1) * f(x1) + (u ** 3 - 2 * u * u + u) * h * d + (-2 * u ** 3 + 3 * u * u)
I = lambda x: int(round(x * 1000000))
def seq(f, n): return '<<%s>>' % ', '.join(f(i) for i in range(n))
def seqs(f, n): return '<<%s>>' % ',\n  '.join(f(i) for i in range(n))
o = ['---------------------------- MODULE CurvesTable ----------------------------',
     '(* Written by tools/mkcurves.py: values of the documented curves, in units of',
     '   10^-6, by type, parameter choice and level (sequences, so offset by one). *)',
     'EXTENDS Integers, Sequences',
     '\\* effective saturation at capillary pressure level l',
     'SeTable == ' + seqs(lambda t: seqs(lambda q: seq(lambda l: str(I(se(t, q, PC[l]))), len(PC)), len(SAT[t])), 2),
     '\\* relative permeability at effective saturation level l',
     'KrTable == ' + seqs(lambda t: seqs(lambda q: seq(lambda l: str(I(kr(t, q, SE[l]))), len(SE)), len(KR[t])), 2),
     '\\* relative permeability at the effective saturation of saturation model (t, q) at level l',
     'KrOfTable == ' + seqs(lambda t: seqs(lambda q: seq(lambda l: seq(lambda u: seq(lambda r: str(I(kr(u, r, se(t, q, PC[l])))), len(KR[u])), 2), len(PC)), len(SAT[t])), 2),
     'PcLevels == %d' % len(PC), 'SeLevels == %d' % len(SE),
     'NSat == <<%d, %d>>' % tuple(map(len, SAT)), 'NKr == <<%d, %d>>' % tuple(map(len, KR)),
     '=============================================================================']
open(os.path.join(V, 'specs', 'CurvesTable.tla'), 'w').write('\n'.join(o) + '\n')
flt = lambda xs: '{%s}' % ', '.join(repr(float(x)) for x in xs)
h = ['// Written by tools/mkcurves.py.', '#define NPC %d' % len(PC), '#define NSE %d' % len(SE),
     'static const double PCL[NPC] = %s, SEL[NSE] = %s;' % (flt(PC), flt(SE)),
     'static const double SATP[2][8][3] = {%s};' % ', '.join('{%s}' % ', '.join(flt(p) for p in t) for t in SAT),
     'static const double KRP[2][8][2] = {%s};' % ', '.join('{%s}' % ', '.join(flt(p) for p in t) for t in KR)]
open(os.path.join(V, 'harness', 'cc_table.h'), 'w').write('\n'.join(h) + '\n')
