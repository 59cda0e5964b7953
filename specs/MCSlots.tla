------------------------------ MODULE MCSlots -------------------------------
EXTENDS SlotsGen, IOUtils
Scalars == {1, 4, 5, 6, 8}
Conds == {9, 10, 12, 14, 15, 16}
AllChoices ==
  (Scalars \X {"kc", "kf"}) \cup (Tensor \X {"ic", "if", "dc", "df", "tc", "tf"})
  \cup (Conds \X {"f", "n"}) \cup {<<13, "f">>} \cup ({12, 14, 15, 16} \X {"c"}) \cup (Slot \X {"x"})
\* the forms of one pair of slots, chosen by the environment variable PAIR ("a b")
ForSlots(S) == {c \in AllChoices : c[1] \in S}
MCChoices == ForSlots({2, 12})
A == atoi(IOEnv.SLOT_A)
B == atoi(IOEnv.SLOT_B)
PairChoices == ForSlots({A, B})
K1 == {1}
K2 == {1, 2}
K3 == {1, 2, 3}
=============================================================================
