------------------------------- MODULE MCGrid -------------------------------
EXTENDS GridGen
Id == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
OnlyId == {Id}
AllMaps == {Id, <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<0, 1, 0>>, <<1, 0, 1>>>>,
            <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 2>>>>, <<<<1, 1, 0>>, <<0, 1, 1>>, <<0, 0, 1>>>>, <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>}
\* maps that keep columns upright
PlexMaps == {Id, <<<<2, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 1, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<0, 1, 0>>, <<1, 0, 1>>>>, <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 2>>>>}
RowDims == {<<1, 1, 1>>, <<2, 1, 1>>, <<3, 1, 1>>}
SquareDims == {<<2, 1, 1>>, <<2, 2, 1>>}
CubeDims == {<<1, 1, 1>>, <<1, 1, 2>>}
PairDims == {<<1, 1, 1>>, <<2, 1, 1>>}
SimDims == {<<1, 1, 1>>, <<2, 1, 1>>, <<1, 3, 1>>, <<2, 2, 1>>, <<1, 2, 2>>, <<2, 2, 2>>, <<3, 2, 1>>, <<4, 1, 1>>, <<3, 2, 2>>}
MoreDims == SimDims \cup {<<3, 3, 1>>, <<3, 2, 2>>, <<1, 1, 6>>, <<5, 1, 2>>, <<3, 3, 2>>}
=============================================================================
