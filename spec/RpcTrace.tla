------------------------------ MODULE RpcTrace ------------------------------
(***************************************************************************)
(* Validates recorded executions of a transport against Rpc. Focus selects *)
(* the aspects that are judged: "rpc" requests and responses, "bcast"      *)
(* broadcasts, "drop" the number of outstanding requests, "conn" the loss  *)
(* of the server, "life" the survival of the server process.               *)
(***************************************************************************)
EXTENDS Rpc, TraceBase
CONSTANT Focus

VARIABLES seps,   \* endpoints of the server
          loop,   \* is this the loopback transport?
          polls   \* client -> requests that were surely outstanding when its poll began
tvars == <<vars, tr, l, seps, loop, polls>>

TInit == Init /\ TraceStart /\ seps = {} /\ loop = FALSE /\ polls = <<>>

F(x) == x \in Focus
Range(s) == {s[i] : i \in DOMAIN s}
Keep == UNCHANGED <<seps, loop, polls>>
Skip == UNCHANGED vars /\ Keep

EInit == Is("Init") /\ seps' = Range(Ev.seps) /\ loop' = (Ev.mode = "loop") /\ UNCHANGED <<vars, polls>>
EConn == Is("Conn") /\ Connect(Ev.c, Range(Ev.eps)) /\ Keep
EConnFail == Is("ConnFail") /\ cl' = [cl EXCEPT ![Ev.c].st = "closed"] /\ UNCHANGED <<req, srv, bq>> /\ Keep
ESure == Is("Sure") /\ Confirm(Ev.c) /\ Keep
EClose == Is("Close") /\ BeginClose(Ev.c) /\ Keep
EClosed == Is("Closed") /\ EndClose(Ev.c) /\ Keep

EReq == Is("Req") /\ Issue(Ev.r, Ev.c, Ev.ep, Ev.d) /\ Keep
ERet == Is("Ret") /\ Return(Ev.r) /\ Keep
\* The loopback transport forgets dropped requests, also before they are handled.
Order(r) == \A q \in req[r].bef : req[q].ph # "sent" \/ req[q].ep \notin seps \/ (loop /\ req[q].fut = "dropped")
EHandle ==
  /\ Is("Handle") /\ Keep
  /\ IF F("rpc") THEN \E r \in Reqs : /\ req[r].ph = "sent" /\ req[r].ep = Ev.ep /\ req[r].d = Ev.d /\ Order(r) /\ ~req[r].late
                                       /\ Handle(r, Ev.k)
     ELSE UNCHANGED vars
EReply == Is("Reply") /\ Keep /\ IF F("rpc") THEN \E r \in Reqs : req[r].k = Ev.k /\ Reply(r, Ev.rd) ELSE UNCHANGED vars
ENoReply == Is("NoReply") /\ Keep /\ IF F("rpc") THEN \E r \in Reqs : req[r].k = Ev.k /\ Mute(r) ELSE UNCHANGED vars
EReady ==
  /\ Is("Ready") /\ Keep
  /\ F("bcast") => \A i \in DOMAIN bq : bq[i].d # Ev.rd
  /\ IF F("rpc") THEN Ready(Ev.r, Ev.rd) ELSE UNCHANGED vars
EFail ==
  /\ Is("Fail") /\ Keep
  /\ IF F("conn") \/ F("rpc")
     THEN \/ Ev.kind = "comm" /\ Fail(Ev.r)
          \* closing a transport abandons its requests; on a loopback the ones that nobody answers fail right away
          \/ /\ req[Ev.r].fut = "held"
             /\ \/ cl[req[Ev.r].c].st = "closed"
                \/ loop /\ (req[Ev.r].ep \notin seps \/ req[Ev.r].ph = "mute")
             /\ req' = [req EXCEPT ![Ev.r].fut = "failed"] /\ UNCHANGED <<cl, srv, bq>>
     ELSE UNCHANGED vars
EDrop == Is("Drop") /\ Drop(Ev.r) /\ Keep

EPollB == Is("PollB") /\ polls' = [c \in DOMAIN polls \cup {Ev.c} |-> IF c = Ev.c THEN AtLeast(Ev.c) ELSE polls[c]]
          /\ UNCHANGED <<vars, seps, loop>>
EPollE ==
  /\ Is("PollE") /\ Skip
  /\ F("drop") /\ ~loop =>
       /\ Ev.n <= Cardinality(AtMost(Ev.c))
       /\ srv = "up" => Ev.n >= Cardinality(polls[Ev.c] \cap AtLeast(Ev.c))
EPend ==
  /\ Is("Pend") /\ Skip
  /\ F("conn") /\ srv = "dead" => Ev.n = 0
  /\ F("drop") => IF loop THEN Ev.n = 0 ELSE srv = "up" => Ev.n = Cardinality(Outstanding(Ev.c))

EBcast == Is("Bcast") /\ Broadcast(Ev.ep, Ev.d) /\ Keep
EUnsol ==
  /\ Is("Unsol") /\ Keep
  /\ IF F("bcast") THEN \E i \in DOMAIN bq : bq[i].ep = Ev.ep /\ bq[i].d = Ev.d /\ Deliver(Ev.c, i)
     ELSE /\ F("drop") => \A r \in Reqs : req[r].resp # Ev.d
          /\ UNCHANGED vars

EGoing == Is("Going") /\ Going /\ Keep
\* Nothing but being told to may end the server.
EDead == Is("Dead") /\ Keep /\ (IF F("life") \/ F("conn") THEN Dead ELSE srv' = "dead" /\ UNCHANGED <<req, cl, bq>>)
ENoticed == Is("Noticed") /\ Notice(Ev.c) /\ Keep
EUpB == Is("UpB") /\ Skip
EUpE ==
  /\ Is("UpE") /\ Skip
  /\ F("conn") => (Ev.up = FALSE => srv # "up") /\ (Ev.up = TRUE => ~cl[Ev.c].noticed)
EEnd ==
  /\ Is("End") /\ Skip
  /\ F("rpc") => IF loop
                 THEN \A r \in Reqs : Live(req[r].c) =>
                        /\ req[r].ph = "replied" => req[r].fut # "held"
                        /\ req[r].fut # "dropped" => /\ req[r].ep \in seps => req[r].ph \in {"replied", "mute"}
                                                     /\ req[r].ep \notin seps => req[r].fut = "failed"
                 ELSE RpcDone(seps)
  /\ F("bcast") => BcastDone
  /\ F("conn") => LossDone
  /\ F("life") => srv = "up"
EDone == Is("Done") /\ Skip
\* Many requests to an endpoint that returns what it got, all of them answered with their own bytes: as many
\* Issue, Handle, Reply and Ready steps, which leave nothing behind.
EWarm == Is("Warm") /\ Live(Ev.c) /\ srv = "up" /\ Skip

TNext == \/ EInit \/ EConn \/ EConnFail \/ ESure \/ EClose \/ EClosed \/ EReq \/ ERet \/ EHandle \/ EReply \/ ENoReply
         \/ EReady \/ EFail \/ EDrop \/ EPollB \/ EPollE \/ EPend \/ EBcast \/ EUnsol \/ EGoing \/ EDead \/ ENoticed
         \/ EWarm \/ EUpB \/ EUpE \/ EEnd \/ EDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
