-------------------------- MODULE MCTimeIntegrator --------------------------
EXTENDS TimeIntegratorGen
C(g, r, m, retry, ts, chk, out) ==
  [growth |-> g, red |-> r, max |-> m, retry |-> retry, ts |-> ts, chk |-> chk, out |-> out]
G1 == D(1, 0)  G54 == D(5, 1)  G32 == D(6, 1)  G2 == D(2, 0)
R14 == D(1, 1)  R12 == D(2, 1)  R1 == D(1, 0)
Big == D(1000000, 0)

\* exhaustive checking
CfgsMC == { [cfg |-> C(g, r, m, retry, FALSE, chk, out), d0 |-> D(1, 0)] :
              g \in {G1, G2}, r \in {R14}, m \in {D(3, 0), Big}, retry \in BOOLEAN, chk \in {0, 2}, out \in {0, 1} }
          \cup { [cfg |-> C(G1, R14, Big, FALSE, TRUE, 0, 0), d0 |-> D(1, 0)] }
IncsMC == {D(0, 0), D(1, 0), D(7, 1)}
StepsMC == {D(2, 0)}

\* exhaustive generation (every history within the bounds becomes a test)
CfgsX == { [cfg |-> C(G2, R14, D(4, 0), TRUE, FALSE, 2, 1), d0 |-> D(1, 0)] }
IncsX == {D(2, 0), D(5, 0)}
StepsX == {D(1, 1)}

\* random generation
CfgsR == { [cfg |-> C(g, r, m, retry, FALSE, chk, out), d0 |-> d0] :
              g \in {G1, G54, G32, G2}, r \in {R14, R12, R1}, m \in {D(4, 0), D(33, 1), Big}, retry \in {TRUE},
              chk \in {0, 1, 2, 3, 5}, out \in {0, 1, 2, 3}, d0 \in {D(1, 0), D(3, 0), D(3, 1)} }
         \cup { [cfg |-> C(g, R14, m, FALSE, FALSE, chk, 0), d0 |-> d0] :
              g \in {G1, G54, G2}, m \in {D(4, 0), Big}, chk \in {0, 1, 3}, d0 \in {D(1, 0), D(3, 1)} }
         \cup { [cfg |-> C(G1, R14, Big, FALSE, TRUE, 0, 0), d0 |-> d0] : d0 \in {D(1, 0), D(3, 1), D(3, 0)} }
IncsR == {D(0, 0), D(1, 0), D(5, 0), D(3, 1), D(20, 0), D(37, 1)}
StepsR == {D(1, 0), D(2, 1), D(3, 0)}
=============================================================================
