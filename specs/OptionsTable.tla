---------------------------- MODULE OptionsTable -----------------------------
(* Written by tools/mkoptions.py. *)
EXTENDS Sequences
Table == <<
  [o |-> "-init_permeability_file", p |-> "io_kfile", at |-> "new", d |-> "", v |-> <<"a_io_kfile", "b_io_kfile">>, bad |-> ""],
  [o |-> "-permeability_dataset", p |-> "io_kset", at |-> "new", d |-> "", v |-> <<"a_io_kset", "b_io_kset">>, bad |-> ""],
  [o |-> "-init_porosity_file", p |-> "io_pfile", at |-> "new", d |-> "", v |-> <<"a_io_pfile", "b_io_pfile">>, bad |-> ""],
  [o |-> "-porosity_dataset", p |-> "io_pset", at |-> "new", d |-> "", v |-> <<"a_io_pset", "b_io_pset">>, bad |-> ""],
  [o |-> "-ic_file", p |-> "io_icfile", at |-> "new", d |-> "", v |-> <<"a_io_icfile", "b_io_icfile">>, bad |-> ""],
  [o |-> "-ic_dataset", p |-> "io_icset", at |-> "new", d |-> "", v |-> <<"a_io_icset", "b_io_icset">>, bad |-> ""],
  [o |-> "-anisotropic_perm", p |-> "io_aniso", at |-> "new", d |-> "0", v |-> <<"1", "0">>, bad |-> "abc"],
  [o |-> "-enable_checkpoint", p |-> "io_cp", at |-> "new", d |-> "0", v |-> <<"1", "0">>, bad |-> "abc"],
  [o |-> "-checkpoint_timestep_interval", p |-> "io_cpint", at |-> "new", d |-> "1", v |-> <<"3", "7">>, bad |-> "abc"],
  [o |-> "-output_timestep_interval", p |-> "io_outint", at |-> "new", d |-> "0", v |-> <<"2", "5">>, bad |-> "abc"],
  [o |-> "-tdy_porosity", p |-> "porosity", at |-> "opts", d |-> "0.25", v |-> <<"0.125", "0.5">>, bad |-> "abc"],
  [o |-> "-tdy_permability", p |-> "permeability", at |-> "opts", d |-> "1e-12", v |-> <<"2e-12", "5e-11">>, bad |-> "abc"],
  [o |-> "-tdy_soil_density", p |-> "soil_density", at |-> "opts", d |-> "2650", v |-> <<"2000", "1500">>, bad |-> "abc"],
  [o |-> "-tdy_soil_specific_heat", p |-> "soil_heat", at |-> "opts", d |-> "1000", v |-> <<"900", "850">>, bad |-> "abc"],
  [o |-> "-tdy_thermal_conductivity", p |-> "conductivity", at |-> "opts", d |-> "1", v |-> <<"2", "0.5">>, bad |-> "abc"],
  [o |-> "-tdy_residual_satuaration", p |-> "residual", at |-> "opts", d |-> "0.15", v |-> <<"0.25", "0.125">>, bad |-> "abc"],
  [o |-> "-tdy_gardner_param_n", p |-> "gardner_n", at |-> "opts", d |-> "0.5", v |-> <<"0.25", "2">>, bad |-> "abc"],
  [o |-> "-tdy_vangenuchten_param_m", p |-> "vg_m", at |-> "opts", d |-> "0.8", v |-> <<"0.5", "0.6">>, bad |-> "abc"],
  [o |-> "-tdy_vangenuchten_param_alpha", p |-> "vg_alpha", at |-> "opts", d |-> "0.0001", v |-> <<"0.0002", "5e-05">>, bad |-> "abc"],
  [o |-> "-tdy_gravity", p |-> "gravity", at |-> "opts", d |-> "9.8068", v |-> <<"0", "1.625">>, bad |-> "abc"],
  [o |-> "-tdy_mode", p |-> "mode", at |-> "opts", d |-> "", v |-> <<"RICHARDS", "TH">>, bad |-> "abc"],
  [o |-> "-tdy_discretization", p |-> "disc", at |-> "opts", d |-> "", v |-> <<"MPFA_O", "FV_TPF">>, bad |-> "abc"],
  [o |-> "-tdy_water_density", p |-> "density", at |-> "opts", d |-> "CONSTANT", v |-> <<"EXPONENTIAL", "BATZLE_AND_WANG">>, bad |-> "abc"],
  [o |-> "-tdy_water_viscosity", p |-> "viscosity", at |-> "opts", d |-> "CONSTANT", v |-> <<"BATZLE_AND_WANG", "CONSTANT">>, bad |-> "abc"],
  [o |-> "-tdy_water_enthalpy", p |-> "enthalpy", at |-> "opts", d |-> "CONSTANT", v |-> <<"CONSTANT", "CONSTANT">>, bad |-> "abc"],
  [o |-> "-tdy_pressure_bc_func", p |-> "pressure_func", at |-> "opts", d |-> "", v |-> <<"fa", "fb">>, bad |-> "nosuch"],
  [o |-> "-tdy_pressure_bc_value", p |-> "pressure_value", at |-> "opts", d |-> "none", v |-> <<"90000", "50000">>, bad |-> "abc"],
  [o |-> "-tdy_velocity_bc_func", p |-> "velocity_func", at |-> "opts", d |-> "", v |-> <<"fa", "fb">>, bad |-> "nosuch"],
  [o |-> "-tdy_velocity_bc_value", p |-> "velocity_value", at |-> "opts", d |-> "none", v |-> <<"0.5", "-2">>, bad |-> "abc"],
  [o |-> "-tdy_temperature_bc_func", p |-> "temperature_func", at |-> "opts", d |-> "", v |-> <<"fa", "fb">>, bad |-> "nosuch"],
  [o |-> "-tdy_temperature_bc_value", p |-> "temperature_value", at |-> "opts", d |-> "none", v |-> <<"300", "280">>, bad |-> "abc"],
  [o |-> "-tdy_init_with_random_field", p |-> "random", at |-> "opts", d |-> "0", v |-> <<"1", "0">>, bad |-> "abc"],
  [o |-> "-tdy_init_file", p |-> "init_file", at |-> "opts", d |-> "", v |-> <<"init.bin", "init2.bin">>, bad |-> ""],
  [o |-> "-tdy_read_mesh", p |-> "mesh", at |-> "opts", d |-> "", v |-> <<"three.msh", "five.msh">>, bad |-> ""],
  [o |-> "-tdy_read_pflotran_mesh", p |-> "pmesh", at |-> "opts", d |-> "", v |-> <<"row3.h5", "row5.h5">>, bad |-> ""],
  [o |-> "-tdy_output_mesh", p |-> "output_mesh", at |-> "opts", d |-> "0", v |-> <<"1", "0">>, bad |-> "abc"],
  [o |-> "-tdy_regression_test", p |-> "regression", at |-> "opts", d |-> "0", v |-> <<"1", "0">>, bad |-> "abc"],
  [o |-> "-tdy_mpfao_gmatrix_method", p |-> "gmatrix", at |-> "mpfao", d |-> "MPFAO_GMATRIX_DEFAULT", v |-> <<"MPFAO_GMATRIX_TPF", "MPFAO_GMATRIX_DEFAULT">>, bad |-> "abc"],
  [o |-> "-tdy_mpfao_boundary_condition_type", p |-> "mpfao_bc", at |-> "mpfao", d |-> "DIRICHLET_BC", v |-> <<"NEUMANN_BC", "SEEPAGE_BC">>, bad |-> "abc"],
  [o |-> "-tdy_fvtpf_boundary_condition_type", p |-> "fvtpf_bc", at |-> "fvtpf", d |-> "NEUMANN_BC", v |-> <<"DIRICHLET_BC", "SEEPAGE_BC">>, bad |-> "abc"],
  [o |-> "-tdy_quadrature", p |-> "quadrature", at |-> "fe", d |-> "FULL", v |-> <<"LUMPED", "FULL">>, bad |-> "abc"],
  [o |-> "-tdy_regression_test_num_cells_per_process", p |-> "reg_cells", at |-> "set", d |-> "2", v |-> <<"1", "3">>, bad |-> "abc"],
  [o |-> "-tdy_regression_test_filename", p |-> "reg_file", at |-> "set", d |-> "", v |-> <<"ra", "rb">>, bad |-> ""],
  [o |-> "-tdy_final_time", p |-> "final_time", at |-> "drive", d |-> "3153.6", v |-> <<"10", "86400">>, bad |-> "abc"],
  [o |-> "-tdy_dt_max", p |-> "dt_max", at |-> "drive", d |-> "1e+20", v |-> <<"100", "600">>, bad |-> "abc"],
  [o |-> "-tdy_dt_init", p |-> "dt_init", at |-> "drive", d |-> "1", v |-> <<"0.5", "60">>, bad |-> "abc"],
  [o |-> "-tdy_dt_growth_factor", p |-> "growth", at |-> "drive", d |-> "1.25", v |-> <<"1.5", "2">>, bad |-> "abc"],
  [o |-> "-tdy_dt_reduction_factor", p |-> "reduction", at |-> "drive", d |-> "0.5", v |-> <<"0.25", "0.125">>, bad |-> "abc"],
  [o |-> "-tdy_time_integration_method", p |-> "method", at |-> "drive", d |-> "SNES", v |-> <<"TS", "SNES">>, bad |-> "abc"]
>>
\* effective saturation at a capillary pressure of 10 kPa, relative permeability at an effective saturation of 1/2
SeTable == [m \in {"0.8", "0.5", "0.6"} |-> [a \in {"0.0001", "0.0002", "5e-05"} |-> CASE m = "0.8" /\ a = "0.0001" -> "0.57435" [] m = "0.8" /\ a = "0.0002" -> "0.06098" [] m = "0.8" /\ a = "5e-05" -> "0.97568" [] m = "0.5" /\ a = "0.0001" -> "0.70711" [] m = "0.5" /\ a = "0.0002" -> "0.44721" [] m = "0.5" /\ a = "5e-05" -> "0.89443" [] m = "0.6" /\ a = "0.0001" -> "0.65975" [] m = "0.6" /\ a = "0.0002" -> "0.32066" [] m = "0.6" /\ a = "5e-05" -> "0.90695"]]
KrTable == [m \in {"0.8", "0.5", "0.6"} |-> CASE m = "0.8" -> "0.088432" [] m = "0.5" -> "0.012692" [] m = "0.6" -> "0.029158"]
==============================================================================
