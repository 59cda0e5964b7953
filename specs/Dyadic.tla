------------------------------- MODULE Dyadic -------------------------------
\* Exact step-size arithmetic in TLC: [n |-> n, k |-> k] stands for n / 4^k.
EXTENDS Integers

D(n, k) == [n |-> n, k |-> k]
NaN == [n |-> -1, k |-> -1]
IsD(a) == a.k >= 0

RECURSIVE Pow4(_)
Pow4(i) == IF i <= 0 THEN 1 ELSE 4 * Pow4(i - 1)
RECURSIVE Shr(_, _)
Shr(n, i) == IF i <= 0 \/ n = 0 THEN n ELSE Shr(n \div 4, i - 1)

RECURSIVE Norm(_, _)
Norm(n, k) == IF n = 0 THEN D(0, 0)
              ELSE IF k > 0 /\ n % 4 = 0 THEN Norm(n \div 4, k - 1) ELSE D(n, k)

\* a <= b without overflow for non-negative a, b of any precision
Leq(a, b) == IF a.k <= b.k THEN a.n <= Shr(b.n, b.k - a.k)
             ELSE LET q == Shr(a.n, a.k - b.k) IN
                  \* ceiling of a.n / 4^(a.k - b.k)
                  IF q >= b.n + 1 THEN FALSE
                  ELSE IF q < b.n THEN TRUE
                  ELSE IF q = 0 THEN a.n = 0 ELSE a.n = q * Pow4(a.k - b.k)
Lt(a, b) == ~Leq(b, a)
Min(a, b) == IF Leq(a, b) THEN a ELSE b

CanAlign(a, b) == LET k == IF a.k > b.k THEN a.k ELSE b.k IN
                  /\ a.n = 0 \/ (k - a.k <= 12 /\ a.n <= 2000000000 \div Pow4(k - a.k))
                  /\ b.n = 0 \/ (k - b.k <= 12 /\ b.n <= 2000000000 \div Pow4(k - b.k))
Al(a, k) == IF a.n = 0 THEN 0 ELSE a.n * Pow4(k - a.k)
Add(a, b) == IF ~IsD(a) \/ ~IsD(b) \/ ~CanAlign(a, b) THEN NaN
             ELSE LET k == IF a.k > b.k THEN a.k ELSE b.k IN Norm(Al(a, k) + Al(b, k), k)
Sub(a, b) == IF ~IsD(a) \/ ~IsD(b) \/ ~CanAlign(a, b) THEN NaN
             ELSE LET k == IF a.k > b.k THEN a.k ELSE b.k IN Norm(Al(a, k) - Al(b, k), k)
Mul(a, b) == IF ~IsD(a) \/ ~IsD(b) \/ (b.n > 0 /\ a.n > 2000000000 \div b.n) THEN NaN
             ELSE Norm(a.n * b.n, a.k + b.k)
Pos(a) == IsD(a) /\ a.n > 0
=============================================================================
