-------------------------------- MODULE Base --------------------------------
(* Conditions with owners, and small helpers, shared by all the modules. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(q) == { q[i] : i \in DOMAIN q }
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

\* guard / response field: <<name, holds, owners>>
G(name, holds, owners) == <<name, holds, owners>>
Failing(gs) == { i \in DOMAIN gs : ~ gs[i][2] }
Names(gs) == { gs[i][1] : i \in Failing(gs) }
Owners(gs) == UNION { gs[i][3] : i \in Failing(gs) }
\* guards evaluated only when a condition holds
When(c, gs) == IF c THEN gs ELSE <<>>


Only(gs) == SelectSeq(gs, LAMBDA g : ~g[2])
=============================================================================
