-------------------------- MODULE MCUnixTransport --------------------------
EXTENDS UnixTransport
\* Two clients; the first one has two requests to the same endpoint in flight.
PlanA == [r \in {1, 2, 3, 4} |-> CASE r = 1 -> [c |-> 1, ep |-> "e"] [] r = 2 -> [c |-> 2, ep |-> "e"]
                                    [] r = 3 -> [c |-> 1, ep |-> "e"] [] r = 4 -> [c |-> 2, ep |-> "nope"]]
\* One client; answered, not answered, answered.
PlanB == [r \in {1, 2, 3} |-> CASE r = 1 -> [c |-> 1, ep |-> "e"] [] r = 2 -> [c |-> 1, ep |-> "m"] [] r = 3 -> [c |-> 1, ep |-> "e"]]
=============================================================================
