------------------------------ MODULE MCOptions -------------------------------
EXTENDS OptionsGen
NoRules == {}
AllRules == {"options"}
AllOpts == Names
BaseOpts == {"-tdy_mode", "-tdy_discretization"}
OthersNamed == Names \ (BaseOpts \cup {"-init_permeability_file", "-init_porosity_file", "-ic_file"})
=============================================================================
