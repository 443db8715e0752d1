----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common part of all trace specifications. traces.json holds a sequence   *)
(* of traces recorded from the implementation, each a sequence of events.  *)
(* The number of the trace is chosen in the initial state, so one run of   *)
(* TLC validates a whole batch. Every event has to be consumed by an       *)
(* action of the specification; the longest consumed prefix of each trace  *)
(* is kept in a TLC register and printed by the postcondition.             *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Traces == JsonDeserialize("traces.json")
ASSUME \A t \in 1..Len(Traces) : TLCSet(t, 0)

VARIABLES tr,    \* which trace
          l      \* position of the next event in it

More == l <= Len(Traces[tr])
Ev == Traces[tr][l]
Is(e) == More /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED tr
TraceStart == tr \in 1..Len(Traces) /\ l = 1

\* CONSTRAINT: always true, records progress.
Progress == IF l - 1 > TLCGet(tr) THEN TLCSet(tr, l - 1) ELSE TRUE
\* POSTCONDITION: report for each trace how far it got.
Accepted == \A t \in 1..Len(Traces) : PrintT(<<"ACC", t, TLCGet(t)>>)
=============================================================================
