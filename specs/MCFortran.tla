----------------------------- MODULE MCFortran -------------------------------
EXTENDS FortranGen
NoRules == {}
AllRules == {"route"}
==============================================================================
