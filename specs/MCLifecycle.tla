----------------------------- MODULE MCLifecycle ------------------------------
EXTENDS LifecycleGen
None == {}
AllRules == {"life"}
D01 == 0..1
D0 == {0}
=============================================================================
