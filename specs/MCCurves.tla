------------------------------- MODULE MCCurves -------------------------------
EXTENDS CurvesGen
NoRules == {}
AllRules == {"curves"}
=============================================================================
