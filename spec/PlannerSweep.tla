---- MODULE PlannerSweep ----
EXTENDS PlannerImpl
SweepLens == (1..1200) \cup {2^k : k \in 10..16} \cup {2^k - 1 : k \in 10..15} \cup {2^k+1 : k \in 10..15} \cup {3 * 2^k : k \in 8..13}
====
