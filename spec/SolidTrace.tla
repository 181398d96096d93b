----------------------------- MODULE SolidTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions of the implementation.                 *)
(*                                                                          *)
(* Every line of the trace file is one recorded behaviour. The set S holds  *)
(* every state the specification can be in after the events read so far; an *)
(* event the specification does not permit leaves S empty: it is reported,  *)
(* with the conditions that failed and the properties they implement. The   *)
(* rest of the behaviour is judged from the states the specification        *)
(* assigns to the outcome; it is abandoned where it assigns none.           *)
(***************************************************************************)
EXTENDS Solid, Json, IOUtils, SequencesExt

RegFile == JsonDeserialize("registry.json")
TraceReg == RegFile.clients
TraceResources == { RegFile.resources[i] : i \in DOMAIN RegFile.resources }
Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)

VARIABLES t, l, S
vars == <<t, l, S>>

Init == /\ t \in DOMAIN Traces
        /\ l = 0
        /\ S = { InitState(Traces[t].t0, Traces[t].multi) }

\* Concurrent batch: all the orders compatible with the recorded precedence
RECURSIVE ParStep(_, _, _, _)
ParStep(s, evs, prec, rem) ==
  IF rem = {} THEN {s}
  ELSE UNION { UNION { ParStep(s2, evs, prec, rem \ {i}) : s2 \in StepSet(s, evs[i]) }
               : i \in { k \in rem : \A p \in prec : p[2] = k => p[1] \notin rem } }
\* a request overtaken by a concurrent one may be reported as a failure of the server
Batch(e) == [i \in DOMAIN e.evs |-> e.evs[i] @@ [batch |-> TRUE]]
ParSet(s, e) == ParStep(s, Batch(e), { e.prec[i] : i \in DOMAIN e.prec }, DOMAIN e.evs)

Next1(s, e) == IF e.op = "par" THEN ParSet(s, e) ELSE StepSet(s, e)

\* Which conditions failed. For a batch no order explains, every request of it
\* that no order can place first is suspected.
RECURSIVE ParOwners(_, _)
OpOwners(s, e) ==
  CASE e.op = "push" -> {"A01", "A04"} [] e.op = "authorize" -> IF e.a.ref_set THEN {"A03"} ELSE {"A01"}
    [] e.op = "token" -> (CASE e.a.grant = GAuthzCode -> {"B01"} [] e.a.grant = GDevice -> {"C01", "C02"}
                            [] e.a.grant = GRefresh -> {"D02", "D03"} [] e.a.grant = GExchange -> {"D05", "D03"} [] OTHER -> {"D06"})
    [] e.op = "revoke" -> {"D03"} [] e.op = "introspect" -> {"D04"} [] e.op = "approve" -> {"C02"} [] e.op = "devauth" -> {"C01"}
    [] e.op = "proof" -> {"E02"} [] e.op = "store" -> StO(e.a) [] OTHER -> {}
ParOwners(s, evs) == UNION { OpOwners(s, evs[i]) : i \in DOMAIN evs } \cup (IF \E i \in DOMAIN evs : OpOwners(s, evs[i]) # {} THEN {"H01"} ELSE {})

\* Conditions that fail whatever the order of the batch
ParMis(s, e) ==
  LET alone == UNION { { Mismatch(s, Batch(e)[i])[k] : k \in DOMAIN Mismatch(s, Batch(e)[i]) } : i \in DOMAIN e.evs } IN
  SetToSeq(alone) \o << <<"no order of the concurrent requests explains their outcomes", FALSE, ParOwners(s, e.evs)>> >>
Mis(s, e) == IF e.op = "par" THEN ParMis(s, e)
             ELSE IF e.f.alter # "" THEN AlterMis(s, e)
             ELSE IF Faulted(e) /\ ~e.r.ok THEN Only(FaultMis(s, e)) ELSE Mismatch(s, e)

Report(s, e) == LET m == Mis(s, e) IN
  [trace |-> Traces[t].id, line |-> l + 1, op |-> e.op,
   failed |-> [i \in DOMAIN m |-> [what |-> m[i][1], owners |-> SetToSeq(m[i][3])]]]

Next == /\ l < Len(Traces[t].ev)
        /\ S # {}
        /\ LET e == Traces[t].ev[l + 1] nxt == UNION { Next1(s, e) : s \in S } IN
           /\ S' = IF nxt # {} \/ e.op = "par" THEN nxt ELSE UNION { Recover(s, e) : s \in S }
           /\ (nxt = {} => \A s \in S : PrintT("MISMATCH " \o ToJson(Report(s, e))))
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars
=============================================================================
