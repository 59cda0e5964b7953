------------------------------- MODULE Grid --------------------------------
(* Input grids: cells are sequences of vertices (4: tetrahedron, 5: pyramid,
   6: wedge, 8: hexahedron; base counterclockwise, then top or apex), vertices
   have integer coordinates. Everything is derived exactly.
   C[i] is cell i-1, a sequence of vertex numbers from 0; X[v+1] is vertex v.  *)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
\* corners of the faces of each shape, as positions in the cell (outward)
Corners == [k \in {4, 5, 6, 8} |->
  CASE k = 4 -> <<<<1, 2, 4>>, <<2, 3, 4>>, <<1, 4, 3>>, <<1, 3, 2>>>>
    [] k = 5 -> <<<<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>>, <<1, 4, 3, 2>>>>
    [] k = 6 -> <<<<1, 2, 5, 4>>, <<2, 3, 6, 5>>, <<3, 1, 4, 6>>, <<1, 3, 2>>, <<4, 5, 6>>>>
    [] k = 8 -> <<<<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<4, 1, 5, 8>>, <<1, 4, 3, 2>>, <<5, 6, 7, 8>>>>]
FacesOf(c) == [i \in DOMAIN Corners[Len(c)] |-> [j \in DOMAIN Corners[Len(c)][i] |-> c[Corners[Len(c)][i][j]]]]
FaceSets(c) == {Range(f) : f \in Range(FacesOf(c))}
\* the set of vertex sets of the faces of every cell
AllFaces(C) == [i \in DOMAIN C |-> FaceSets(C[i])]
Neighbours(fs, i) == {j \in DOMAIN fs \ {i} : fs[i] \cap fs[j] # {}}
\* vectors
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Plus(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Scale(n, a) == <<n * a[1], n * a[2], n * a[3]>>
RECURSIVE SumVec(_)
SumVec(s) == IF s = <<>> THEN <<0, 0, 0>> ELSE Plus(Head(s), SumVec(Tail(s)))
At(X, v) == X[v + 1]
\* twice the area vector of a polygon of vertices
Area2(X, f) == SumVec([j \in 1..(Len(f) - 2) |-> Cross(Minus(At(X, f[j + 1]), At(X, f[1])), Minus(At(X, f[j + 2]), At(X, f[1])))])
\* six times the volume (planar faces): fan over the faces from the first vertex
Vol6(X, c) == LET F == FacesOf(c) IN Abs(SumOf([i \in DOMAIN F |-> Dot(Area2(X, F[i]), Minus(At(X, F[i][1]), At(X, c[1])))]))
\* sum of the corners of a cell or face
SumX(X, s) == SumVec([j \in DOMAIN s |-> At(X, s[j])])
\* 120 times the mean of the corners
Mean120(X, s) == Scale(120 \div Len(s), SumX(X, s))
Planar(X, f) == Len(f) = 3 \/ Dot(Cross(Minus(At(X, f[2]), At(X, f[1])), Minus(At(X, f[3]), At(X, f[1]))), Minus(At(X, f[4]), At(X, f[1]))) = 0
============================================================================
