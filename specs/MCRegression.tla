---------------------------- MODULE MCRegression -----------------------------
EXTENDS RegressionGen
\* all distributions of 1..6 cells over one to three processes
Distrs == {s \in UNION {[1..k -> 0..4] : k \in 1..3} : Sum(s) > 0 /\ Sum(s) <= 6}
SomeDistrs == {<<3>>, <<1, 2>>, <<2, 0>>, <<2, 2, 3>>}
\* the meshes that are executed, by their number of cells
Own1 == {<<1>>, <<2>>, <<3>>, <<4>>, <<6>>, <<8>>, <<12>>, <<27>>}
Own2 == {<<4>>, <<6>>, <<8>>, <<9>>, <<16>>}
Own3 == {<<4>>, <<6>>, <<8>>, <<9>>, <<16>>}
Own4 == {<<4>>, <<8>>, <<9>>, <<16>>}
==============================================================================
