#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TI = ('TimeIntegrator.tla (TLA+) model-checked by TLC; its behaviours are replayed in the real TDyTimeIntegrator over a scripted '
      'nonlinear solver and the recorded traces are validated against the same specification')
NOTE_TI = ('All behaviours of the specification in the small configuration (listed in the evidence) are enumerated and each is executed in the real code; '
           'larger ones are sampled at random. Trusted: TLC, the harness that scripts convergence/failure of PETSc\'s SNES/TS and records steps.')
SL = ('Slots.tla (TLA+) model-checked by TLC; the behaviours it generates (sets, contexts, replacements, deletions, setups on several dycores) are executed in the real code '
      'and the observed values and releases are validated against the same specification')
NOTE_SL = ('Per slot all behaviours of bounded length are enumerated (a fixed sample of them executed in the quick tier, all in the thorough tier), longer mixed ones are sampled. '
           'Trusted: TLC, the harness that probes every slot of every live dycore at two points after every step.')
LI = ('Library.tla (TLA+) model-checked by TLC; the sessions it generates (initialize, register, look up, select, hooks, stages, timers, dycores, finalize) are executed in the real code '
      'and everything observed after each call is validated against the same specification')
NOTE_LI = ('All sessions of bounded length over small name sets are enumerated and executed (a fixed sample in the quick tier), longer mixed ones are sampled. '
           'Trusted: TLC, the harness that looks up every name, evaluates every condition and reads the stage counters and the written profile after each call.')
LF = ('Lifecycle.tla (TLA+) model-checked by TLC; the call sequences it generates (in and out of order, supported and unsupported pairs, by call and by command line) are executed in the real code '
      'and every result, and what every dycore shows afterwards, is validated against the same specification')
NOTE_LF = ('All sequences of the ordering calls up to the bound in the evidence are enumerated and (in the quick tier a sample of them) executed, every mode/discretization pair is driven to its end in every way, longer sequences are sampled. '
           'Trusted: TLC, the harness that performs the calls and reads mode, discretization, mesh and vector sizes. Two dycores, meshes of 2-3 cells.')
CC = ('Curves.tla (TLA+; exact dyadic arithmetic for the curve values) model-checked by TLC; the assignments of models to points and the computations it generates are executed in the real code '
      'through the curve functions and through whole dycores, and every computed array is validated against the same specification')
NOTE_CC = ('All sequences of assignments up to the bound in the evidence over small point sets are enumerated (sampled for execution in the quick tier), longer ones are sampled; curve values are compared in a table of parameters for which '
           'they are exactly representable. Trusted: TLC, the harness that calls the functions and prints the arrays as integers.')
OP = ('Options.tla (TLA+) model-checked by TLC; the command lines and calls it generates are executed in the real code, and after each stage every parameter, '
      'and everything the parameters govern that can be computed, is validated against the same specification')
NOTE_OP = ('All single options with every value (two valid, one invalid) for every mode and discretization, all pairs of options, and all combinations of an option and a call are enumerated (a fixed sample executed in the quick tier), longer command lines are sampled. '
           'Trusted: TLC, the harness that passes the options and reads the parameters; the table of options in tools/mkoptions.py.')
FO = ('Fortran.tla (TLA+) model-checked by TLC; the sequences of Fortran registrations and settings it generates (several dycores, every quantity, by name and by procedure) are executed through the real Fortran module '
      'and the value every quantity of every dycore then has is validated against the same specification')
NOTE_FO = ('All sequences up to the bound in the evidence over small sets of names and functions are enumerated (a fixed sample executed in the quick tier), longer mixed ones are sampled. '
           'Trusted: TLC, gfortran, the harness that evaluates every quantity of every dycore after each step.')
RG = ('Regression.tla (TLA+) model-checked by TLC; the solutions, distributions and output orders it generates are given to real dycores on 1-4 processes '
      'and the files they write are parsed and validated against the same specification')
NOTE_RG = ('Solutions over small sets of values on meshes of up to a few dozen cells, 1-4 MPI processes, several dycores and repeated outputs; enumerated up to the bound in the evidence, sampled beyond. '
           'Trusted: TLC, the harness that sets the solution vector and parses the file.')
DI = ('Distribute.tla and Grid.tla (TLA+; grids of hexahedra, prisms, pyramids and tetrahedra with every numbering and assignment of cells to processes) model-checked by TLC; the grids they generate are written to '
      'mesh files or given to PETSc and distributed by the real code on 1-4 processes, and the tables and vectors of every process are validated against the same specification')
PL = ('Plex.tla, Distribute.tla and Grid.tla (TLA+) model-checked by TLC; the grids they generate are given to PETSc, distributed and set up by the real code on 1-4 processes, '
      'and every table of the mesh of every process is validated against the same specification in exact integer geometry')
NOTE_DI = ('Small rows of cells with every numbering, turning and partition, and random grids of mixed shapes under integer maps (with volumes other than boxes) on 1-4 MPI processes. '
           'Trusted: TLC, MPI, the harness that chooses the partition (a partitioner of its own; a fifth of the grids use the default one) and prints the tables as integers.')
FI = ('Files.tla and Grid.tla (TLA+) model-checked by TLC; the histories they generate (runs, states, checkpoints, restarts, user files, output, changing partitions) are executed in the real code '
      'on 1-4 processes, and every file written (datasets, mesh and description) and every vector and property array after a read is validated against the same specification')
NOTE_FI = ('All partitions of two to four cells with histories up to the bound in the evidence are enumerated in the model; histories of up to 12 steps on random grids of hexahedra and prisms are executed. '
           'Trusted: TLC, MPI, HDF5, the harness that sets states as integers and dumps files, the parser of the description.')
FL = ('Flux.tla (TLA+; residual and Jacobian of the finite-volume discretizations in exact integer arithmetic) and Grid.tla model-checked by TLC; the meshes, properties, boundary conditions, states, partitions and runs it generates '
      'are executed in the real code on 1-4 processes, and every residual, Jacobian entry, difference quotient and total mass is validated against the same specification')
NOTE_FL = ('All states over a few pressure levels on small boxes with every kind of boundary are enumerated in the model; boxes of up to a few dozen cells with random states are executed and compared exactly, and distorted or mixed meshes, other liquid models, TH and salinity are compared between processes '
           'and with differences of their own residual. Trusted: TLC, MPI, the harness that turns values into integers (a value that is not an integer to 1e-6 is reported).')
CLAIMED = {
 'C14': (FL, NOTE_FL), 'C16': (FL, NOTE_FL), 'C17': (FL, NOTE_FL), 'C27': (FL, NOTE_FL),
 'C10': (FI, NOTE_FI), 'C11': (FI, NOTE_FI), 'C26': (FI, NOTE_FI),
 'C12': (DI, NOTE_DI), 'C13': (DI, NOTE_DI), 'C15': (PL, NOTE_DI),
 'C20': (RG, NOTE_RG), 'C22': (FO, NOTE_FO),
 'C18': (CC, NOTE_CC), 'C19': (OP, NOTE_OP),
 'C01': (LF, NOTE_LF),
 'C04': (LI, NOTE_LI), 'C05': (LI, NOTE_LI), 'C21': (LI, NOTE_LI),
 'C02': (SL, NOTE_SL), 'C03': (SL, NOTE_SL),
 'C06': (TI, NOTE_TI), 'C07': (TI, NOTE_TI), 'C08': (TI, NOTE_TI), 'C09': (TI, NOTE_TI),
}
NA = {
 'C24': 'Numerical accuracy of correlations over real intervals; there is no transition system to specify.',
 'C25': 'Asymptotic convergence rates of PDE discretizations; nothing discrete to model-check.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    if p['id'] not in CLAIMED and p['id'] not in NA:
        NA[p['id']] = 'Not claimed yet: its specification and conformance harness are under construction (see DESIGN.md).'
m = dict(version=1, setup_cmd='python3 bin/setup.py',
 checks=[dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
              technique=t, level='model_checking', level_note=n) for i, (t, n) in sorted(CLAIMED.items())],
 not_applicable=[dict(property=i, reason=r) for i, r in sorted(NA.items())],
 notes='No hooks are compiled into /repo: the harness compiles /repo\'s own sources, including internal ones. properties.jsonl, known_findings.jsonl and DESIGN.md describe the rest.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
