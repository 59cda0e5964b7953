----------------------------- MODULE MCLibrary ------------------------------
EXTENDS LibraryGen
None == {}
AllRules == {"reg", "hook", "stage"}
D01 == 0..1
D0 == {0}
OnePair == {<<0, 0>>}
AllPairs == {<<0, 0>>, <<1, 0>>, <<2, 0>>, <<3, 0>>, <<4, 0>>, <<5, 0>>, <<0, 1>>, <<0, 2>>}
Rng == {<<0, 3>>, <<0, 40>>, <<30, 120>>, <<100, 200>>}
Opt2 == {0, -1, 1}
Opt3 == {0, -1, 1, 2, 5}
=============================================================================
