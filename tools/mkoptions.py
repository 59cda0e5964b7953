#!/usr/bin/env python3
"""The table of documented options (specs/OptionsTable.tla): option, the parameter it
documents, when it is read, the parameter's default, two values, a value that is none.
Also what the Van Genuchten and Mualem curves yield for the choices of m and alpha."""
T = []
def r(o, p, at, d, a, b, bad='abc'): T.append((o, p, at, d, a, b, bad))
# read when the dycore is created
for o, p in (('init_permeability_file', 'io_kfile'), ('permeability_dataset', 'io_kset'), ('init_porosity_file', 'io_pfile'), ('porosity_dataset', 'io_pset'), ('ic_file', 'io_icfile'), ('ic_dataset', 'io_icset')):
    r('-' + o, p, 'new', '', 'a_' + p, 'b_' + p, '')
r('-anisotropic_perm', 'io_aniso', 'new', '0', '1', '0'); r('-enable_checkpoint', 'io_cp', 'new', '0', '1', '0')
r('-checkpoint_timestep_interval', 'io_cpint', 'new', '1', '3', '7'); r('-output_timestep_interval', 'io_outint', 'new', '0', '2', '5')
# read with the options
for o, p, d, a, b in (('porosity', 'porosity', '0.25', '0.125', '0.5'), ('permability', 'permeability', '1e-12', '2e-12', '5e-11'), ('soil_density', 'soil_density', '2650', '2000', '1500'),
        ('soil_specific_heat', 'soil_heat', '1000', '900', '850'), ('thermal_conductivity', 'conductivity', '1', '2', '0.5'), ('residual_satuaration', 'residual', '0.15', '0.25', '0.125'),
        ('gardner_param_n', 'gardner_n', '0.5', '0.25', '2'), ('vangenuchten_param_m', 'vg_m', '0.8', '0.5', '0.6'), ('vangenuchten_param_alpha', 'vg_alpha', '0.0001', '0.0002', '5e-05'),
        ('gravity', 'gravity', '9.8068', '0', '1.625')):
    r('-tdy_' + o, p, 'opts', d, a, b)
r('-tdy_mode', 'mode', 'opts', '', 'RICHARDS', 'TH'); r('-tdy_discretization', 'disc', 'opts', '', 'MPFA_O', 'FV_TPF')
r('-tdy_water_density', 'density', 'opts', 'CONSTANT', 'EXPONENTIAL', 'BATZLE_AND_WANG'); r('-tdy_water_viscosity', 'viscosity', 'opts', 'CONSTANT', 'BATZLE_AND_WANG', 'CONSTANT')
r('-tdy_water_enthalpy', 'enthalpy', 'opts', 'CONSTANT', 'CONSTANT', 'CONSTANT')
for q, v, w in (('pressure', '90000', '50000'), ('velocity', '0.5', '-2'), ('temperature', '300', '280')):
    r('-tdy_%s_bc_func' % q, q + '_func', 'opts', '', 'fa', 'fb', 'nosuch'); r('-tdy_%s_bc_value' % q, q + '_value', 'opts', 'none', v, w)
r('-tdy_init_with_random_field', 'random', 'opts', '0', '1', '0'); r('-tdy_init_file', 'init_file', 'opts', '', 'init.bin', 'init2.bin', '')
r('-tdy_read_mesh', 'mesh', 'opts', '', 'three.msh', 'five.msh', ''); r('-tdy_read_pflotran_mesh', 'pmesh', 'opts', '', 'row3.h5', 'row5.h5', '')
r('-tdy_output_mesh', 'output_mesh', 'opts', '0', '1', '0'); r('-tdy_regression_test', 'regression', 'opts', '0', '1', '0')
# read by one discretization
r('-tdy_mpfao_gmatrix_method', 'gmatrix', 'mpfao', 'MPFAO_GMATRIX_DEFAULT', 'MPFAO_GMATRIX_TPF', 'MPFAO_GMATRIX_DEFAULT')
r('-tdy_mpfao_boundary_condition_type', 'mpfao_bc', 'mpfao', 'DIRICHLET_BC', 'NEUMANN_BC', 'SEEPAGE_BC')
r('-tdy_fvtpf_boundary_condition_type', 'fvtpf_bc', 'fvtpf', 'NEUMANN_BC', 'DIRICHLET_BC', 'SEEPAGE_BC')
r('-tdy_quadrature', 'quadrature', 'fe', 'FULL', 'LUMPED', 'FULL')
# read at setup, and by the driver
r('-tdy_regression_test_num_cells_per_process', 'reg_cells', 'set', '2', '1', '3'); r('-tdy_regression_test_filename', 'reg_file', 'set', '', 'ra', 'rb', '')
for o, p, d, a, b in (('final_time', 'final_time', '3153.6', '10', '86400'), ('dt_max', 'dt_max', '1e+20', '100', '600'), ('dt_init', 'dt_init', '1', '0.5', '60'),
        ('dt_growth_factor', 'growth', '1.25', '1.5', '2'), ('dt_reduction_factor', 'reduction', '0.5', '0.25', '0.125')):
    r('-tdy_' + o, p, 'drive', d, a, b)
r('-tdy_time_integration_method', 'method', 'drive', 'SNES', 'TS', 'SNES')

def g(x): return '%.5g' % x
vm, va = ['0.8', '0.5', '0.6'], ['0.0001', '0.0002', '5e-05']
def se(m, a): n = 1 / (1 - m); return (1 + (a * 1e4) ** n) ** -m
def kr(m): s = .5; return s ** .5 * (1 - (1 - s ** (1 / m)) ** m) ** 2
Q = lambda s: '"%s"' % s
out = ['---------------------------- MODULE OptionsTable -----------------------------', '(* Written by tools/mkoptions.py. *)', 'EXTENDS Sequences', 'Table == <<']
out.append(',\n'.join('  [o |-> %s, p |-> %s, at |-> %s, d |-> %s, v |-> <<%s, %s>>, bad |-> %s]' % tuple(map(Q, t)) for t in T))
out.append('>>')
out.append('\\* effective saturation at a capillary pressure of 10 kPa, relative permeability at an effective saturation of 1/2')
out.append('SeTable == [m \\in {%s} |-> [a \\in {%s} |-> CASE %s]]' % (', '.join(map(Q, vm)), ', '.join(map(Q, va)), ' [] '.join('m = %s /\\ a = %s -> %s' % (Q(m), Q(a), Q(g(se(float(m), float(a))))) for m in vm for a in va)))
out.append('KrTable == [m \\in {%s} |-> CASE %s]' % (', '.join(map(Q, vm)), ' [] '.join('m = %s -> %s' % (Q(m), Q(g(kr(float(m))))) for m in vm)))
out.append('=' * 78)
open(__import__('os').path.dirname(__file__) + '/../specs/OptionsTable.tla', 'w').write('\n'.join(out) + '\n')
