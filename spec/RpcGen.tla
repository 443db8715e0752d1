------------------------------- MODULE RpcGen -------------------------------
(***************************************************************************)
(* Generates behaviours of Rpc to be replayed on the real transport. The   *)
(* steps of the environment (connecting, requests, dropping, broadcasts,   *)
(* opening the gate a handler waits at, closing, killing) are written to a *)
(* script in the order of the behaviour; the steps of the system can be    *)
(* written as hints to wait for before the next step of the environment.   *)
(***************************************************************************)
EXTENDS Rpc, Json
CONSTANTS Clients, Threads, Kinds, BKinds, MaxReq, MaxB, MaxLen, Allow

VARIABLES script, at, nh, un, done
gvars == <<vars, script, at, nh, un, done>>

Say(x) == script' = Append(script, x)
GInit == Init /\ script = <<>> /\ at = 0 /\ nh = 0 /\ un = [c \in Clients |-> 0] /\ done = FALSE
Same == UNCHANGED <<at, nh, un, done>>

Subs == {{"b1"}, {"b1", "b2"}, {"b1", "e1"}, {"b1", "b2", "r1"}}
Served == {k \in Kinds : k # "nope"}
IsOpen(c) == c \in DOMAIN cl /\ cl[c].st = "open"

GConnect == \E c \in Clients, s \in Subs :
  /\ \A b \in Clients : b < c => b \in DOMAIN cl
  /\ Connect(c, s) /\ Say([op |-> "conn", c |-> c, eps |-> s]) /\ Same
GConfirm == \E c \in Clients :
  /\ IsOpen(c) /\ cl[c].must = 0 /\ srv = "up"
  /\ \A r \in Reqs : req[r].ep \in {"g1", "g2"} => req[r].ph = "replied"   \* nothing waits at the gate
  /\ Confirm(c) /\ Say([op |-> "sure", c |-> c]) /\ Same
GIssue == \E c \in Clients, t \in Threads, ep \in Kinds, now \in {FALSE, TRUE} :
  LET r == Cardinality(Reqs) + 1 IN
  /\ r <= MaxReq /\ IsOpen(c) /\ cl[c].must # 0
  /\ now => "drop" \in Allow /\ "dropnow" \in Allow
  /\ req' = req @@ (r :> [c |-> c, ep |-> ep, d |-> r, ph |-> "sent", resp |-> NoReply, fut |-> IF now THEN "dropped" ELSE "held",
                          ret |-> TRUE, bef |-> OfClient(c), k |-> 0, late |-> FALSE])
  /\ UNCHANGED <<cl, srv, bq>>
  /\ Say([op |-> "req", r |-> r, c |-> c, t |-> t, ep |-> ep, now |-> now]) /\ Same
GDrop == \E r \in Reqs :
  /\ "drop" \in Allow /\ req[r].fut = "held" /\ Drop(r) /\ Say([op |-> "drop", r |-> r]) /\ Same
GBcast == \E ep \in BKinds :
  /\ Len(bq) < MaxB /\ srv = "up"
  /\ Broadcast(ep, Len(bq) + 1) /\ Say([op |-> "bcast", n |-> Len(bq) + 1, ep |-> ep]) /\ Same
GOpen == at # 0 /\ at' = 0 /\ Say([op |-> "open"]) /\ Reply(at, at) /\ UNCHANGED <<nh, un, done>>
GClose == \E c \in Clients :
  /\ "close" \in Allow /\ IsOpen(c) /\ cl[c].must # 0
  /\ cl' = [cl EXCEPT ![c].st = "closed"] /\ UNCHANGED <<req, srv, bq>>
  /\ Say([op |-> "close", c |-> c]) /\ Same
GPoll == \E c \in Clients : "poll" \in Allow /\ IsOpen(c) /\ UNCHANGED vars /\ Say([op |-> "poll", c |-> c]) /\ Same
GUp == \E c \in Clients : "up" \in Allow /\ IsOpen(c) /\ UNCHANGED vars /\ Say([op |-> "isup", c |-> c]) /\ Same
GCalm == "calm" \in Allow /\ at = 0 /\ srv = "up" /\ Reqs # {} /\ UNCHANGED vars /\ Say([op |-> "calm"]) /\ Same
GKill == \E how \in {"kill", "stop"} :
  /\ how \in Allow /\ srv = "up" /\ Reqs # {} /\ srv' = "dead" /\ UNCHANGED <<req, cl, bq>>
  /\ Say([op |-> how]) /\ Same
GBad == \E m \in 0..7 :
  /\ "bad" \in Allow /\ srv = "up" /\ UNCHANGED vars /\ Say([op |-> "bad", m |-> m]) /\ Same

\* Steps of the system, with or without a hint in the script to wait for them.
Hint(x) == \E h \in {TRUE, FALSE} : IF h THEN Say(x) ELSE UNCHANGED script
GHandle == \E r \in Reqs :
  /\ srv = "up" /\ at = 0 /\ req[r].ph = "sent" /\ req[r].ep \in Served
  /\ \A q \in req[r].bef : req[q].ph # "sent" \/ req[q].ep \notin Served
  /\ nh' = nh + 1 /\ Hint([op |-> "awaith", n |-> nh + 1])
  /\ IF req[r].ep \in {"g1", "g2"} THEN at' = r /\ Handle(r, nh + 1)
     ELSE /\ at' = at
          /\ req' = [req EXCEPT ![r].ph = IF req[r].ep \in {"m1", "t1", "x1"} THEN "mute" ELSE "replied", ![r].resp = r]
          /\ UNCHANGED <<cl, srv, bq>>
  /\ UNCHANGED <<un, done>>
GReady == \E r \in Reqs :
  /\ Ready(r, r) /\ Hint([op |-> "awaitr", r |-> r]) /\ Same
GDeliver == \E c \in DOMAIN cl : \E i \in DOMAIN bq :
  /\ IsOpen(c) /\ srv = "up" /\ at = 0 /\ Deliver(c, i)
  /\ un' = [un EXCEPT ![c] = @ + 1] /\ Hint([op |-> "awaitu", c |-> c, n |-> un[c] + 1])
  /\ UNCHANGED <<at, nh, done>>

GFinish == ~done /\ Len(script) >= MaxLen /\ done' = TRUE /\ UNCHANGED <<vars, script, at, nh, un>>

GNext == IF done THEN FALSE
         ELSE IF Len(script) >= MaxLen THEN GFinish
         ELSE \/ GConnect \/ GConfirm \/ GIssue \/ GDrop \/ GBcast \/ GOpen \/ GClose \/ GPoll \/ GUp \/ GCalm \/ GKill \/ GBad
              \/ GHandle \/ GReady \/ GDeliver
GSpec == GInit /\ [][GNext]_gvars
Emit == done => PrintT("@@" \o ToJson(script))
=============================================================================
