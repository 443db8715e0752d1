----------------------------- MODULE Discovery -----------------------------
(***************************************************************************)
(* Serving, discovering and connecting, as the factory of a transport      *)
(* promises it (SRV, the abstract part), and how sockets with a name in    *)
(* the kernel's table implement it. The flags switch design decisions off. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Bags, TLC
CONSTANTS Procs, MaxInc, MaxConn,
          Dedup,      \* a name that appears several times is one server
          CloseAll    \* stopping closes the connections as well
VARIABLES
  alive,  \* living processes
  inc,    \* process -> number of times it began to serve
  up,     \* processes that are serving
  socks,  \* sockets with a name: [p, kind, c]: listening, accepted or waiting to be accepted (of connection c)
  conns   \* connection -> [by, to, inc]
vars == <<alive, inc, up, socks, conns>>

Init == alive = Procs /\ inc = [p \in Procs |-> 0] /\ up = {} /\ socks = {} /\ conns = <<>>

Serve(p) ==
  /\ p \in alive /\ inc[p] < MaxInc
  /\ IF \E s \in socks : s.p = p /\ s.kind = "listen"
     THEN UNCHANGED vars                                                  \* refused, nothing changes
     ELSE /\ up' = up \cup {p} /\ inc' = [inc EXCEPT ![p] = @ + 1]
          /\ socks' = socks \cup {[p |-> p, kind |-> "listen", c |-> 0]}
          /\ UNCHANGED <<alive, conns>>
Stop(p) ==
  /\ p \in up /\ up' = up \ {p}
  /\ socks' = {s \in socks : s.p # p \/ (~CloseAll /\ s.kind = "accepted")}
  /\ UNCHANGED <<alive, inc, conns>>
Die(p) ==
  /\ p \in alive /\ alive' = alive \ {p} /\ up' = up \ {p} /\ socks' = {s \in socks : s.p # p}
  /\ UNCHANGED <<inc, conns>>
Connect(b, p) ==
  /\ b \in alive /\ Cardinality(DOMAIN conns) < MaxConn
  /\ \E s \in socks : s.p = p /\ s.kind = "listen"
  /\ LET c == Cardinality(DOMAIN conns) + 1 IN
     /\ conns' = conns @@ (c :> [by |-> b, to |-> p, inc |-> inc[p]])
     /\ socks' = socks \cup {[p |-> p, kind |-> "waiting", c |-> c]}
  /\ UNCHANGED <<alive, inc, up>>
Accept(p) == \E s \in socks :
  /\ s.p = p /\ s.kind = "waiting" /\ p \in up
  /\ socks' = (socks \ {s}) \cup {[s EXCEPT !.kind = "accepted"]}
  /\ UNCHANGED <<alive, inc, up, conns>>
Next == \E p \in Procs : Serve(p) \/ Stop(p) \/ Die(p) \/ Accept(p) \/ \E b \in Procs : Connect(b, p)
Spec == Init /\ [][Next]_vars

\* What discovery answers: the names in the table. Sockets waiting to be accepted have no inode yet and are skipped.
Listed == LET named == {s \in socks : s.kind # "waiting"} IN
          IF Dedup THEN SetToBag({s.p : s \in named})
          ELSE [p \in {s.p : s \in named} |-> Cardinality({s \in named : s.p = p})]
\* Each serving process once and nothing else.
Truth == Listed = SetToBag(up)
Dead == \A p \in up : p \in alive
=============================================================================
