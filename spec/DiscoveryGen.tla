---------------------------- MODULE DiscoveryGen ----------------------------
(* Histories of processes that serve, stop, die, discover and connect, to be replayed. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxProc, MaxAlive, MaxLen, MaxConn
VARIABLES script, alive, born, up, conns, nd, done
vars == <<script, alive, born, up, conns, nd, done>>
Say(x) == script' = Append(script, x)
Init == script = <<>> /\ alive = {} /\ born = 0 /\ up = {} /\ conns = {} /\ nd = 0 /\ done = FALSE
NewConn == Cardinality(conns) + 1
ConnId(c) == c.i
Born == born < MaxProc /\ Cardinality(alive) < MaxAlive /\ born' = born + 1 /\ alive' = alive \cup {born + 1}
        /\ Say([op |-> "born", p |-> born + 1]) /\ UNCHANGED <<up, conns, nd, done>>
Serve == \E p \in alive, a \in {TRUE, FALSE} : up' = up \cup {p} /\ Say([op |-> "serve", p |-> p, a |-> a]) /\ UNCHANGED <<alive, born, conns, nd, done>>
Stop == \E p \in up, a \in {TRUE, FALSE} : up' = up \ {p} /\ Say([op |-> "stop", p |-> p, a |-> a]) /\ UNCHANGED <<alive, born, conns, nd, done>>
Gone == \E p \in alive, how \in {"kill", "exit"} : /\ Cardinality(alive) > 1 /\ p \in up /\ alive' = alive \ {p} /\ up' = up \ {p}
                        /\ Say([op |-> how, p |-> p]) /\ UNCHANGED <<born, conns, nd, done>>
Disc == \E p \in alive, a \in {TRUE, FALSE} : nd' = nd + 1 /\ Say([op |-> "disc", p |-> p, i |-> nd + 1, a |-> a]) /\ UNCHANGED <<alive, born, up, conns, done>>
Conn == \E p \in alive, q \in 1..born, a \in {TRUE, FALSE} :
          /\ Cardinality(conns) < MaxConn
          /\ conns' = conns \cup {[i |-> NewConn, by |-> p, to |-> q]}
          /\ Say([op |-> "conn", p |-> p, i |-> NewConn, to |-> q, a |-> a]) /\ UNCHANGED <<alive, born, up, nd, done>>
Use == \E c \in conns, a \in {TRUE, FALSE} : c.by \in alive /\ Say([op |-> "use", p |-> c.by, i |-> c.i, a |-> a]) /\ UNCHANGED <<alive, born, up, conns, nd, done>>
Drop == \E c \in conns : c.by \in alive /\ Say([op |-> "drop", p |-> c.by, i |-> c.i]) /\ UNCHANGED <<alive, born, up, conns, nd, done>>
Swap == \E c \in conns, q \in up :
          /\ c.by \in alive /\ Cardinality(conns) < MaxConn
          /\ conns' = conns \cup {[i |-> NewConn, by |-> c.by, to |-> q]}
          /\ Say([op |-> "swap", p |-> c.by, i |-> c.i, j |-> NewConn, to |-> q]) /\ UNCHANGED <<alive, born, up, nd, done>>
Alien == \E p \in alive : Say([op |-> "alien", p |-> p]) /\ UNCHANGED <<alive, born, up, conns, nd, done>>
Join == script # <<>> /\ Say([op |-> "join"]) /\ UNCHANGED <<alive, born, up, conns, nd, done>>
Next == IF done THEN FALSE
        ELSE IF Len(script) >= MaxLen THEN done' = TRUE /\ UNCHANGED <<script, alive, born, up, conns, nd>>
        ELSE Born \/ Serve \/ Stop \/ Gone \/ Disc \/ Conn \/ Use \/ Drop \/ Swap \/ Alien \/ Join
Spec == Init /\ [][Next]_vars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
