------------------------------- MODULE MCFlux -------------------------------
EXTENDS FluxGen
Cube2 == {<<2, 2, 2>>}
SomeWidths == {<<2, 2, 2>>, <<2, 4, 2>>, <<4, 2, 2>>, <<2, 2, 4>>, <<4, 2, 4>>}
Rows == {<<2, 1, 1>>, <<1, 1, 2>>}
Rows3 == {<<2, 1, 1>>, <<1, 1, 2>>, <<1, 1, 3>>, <<1, 2, 2>>}
SimGrids == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 1, 3>>, <<1, 3, 1>>, <<2, 2, 1>>, <<1, 2, 2>>, <<2, 2, 2>>, <<4, 1, 1>>, <<3, 1, 2>>}
MoreGrids == SimGrids \cup {<<3, 3, 1>>, <<3, 2, 2>>, <<1, 1, 6>>, <<2, 3, 2>>}
Lvls == {-1600, -900, 0, 300, 800}
FewLvls == {-900, 0, 100}
Press == {-1600, -900, 0, 100, 700}
FewPress == {-900, 100}
=============================================================================
